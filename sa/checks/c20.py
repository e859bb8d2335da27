from ..report import Check
from ..spec import SpecRunner


class C20(Check):
    id = "C20"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'What each recorder stores per step (value, row, column), how totals, means, counts and extremes accumulate and are divided at the end, which aggregation their values use, and how the single result aggregates exactly those values are summarised and compared with reference equations.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the recorded positions, accumulations and aggregations of the recorders covered for every number of steps and scenarios; the numerical library functions are assumed'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 30)


CHECK = C20
