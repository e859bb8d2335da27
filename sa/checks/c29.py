from ..report import Check
from ..spec import SpecRunner


class C29(Check):
    id = "C29"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'The search loop is summarised as a system of recurrences (test, starting values, next values) and compared, with every set/run call and every refusal, with a reference.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the search for every sequence of outcomes, range and tolerance; termination in floating point is not modelled'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 1)


CHECK = C29
