from ..report import Check
from ..spec import SpecRunner


class C03(Check):
    id = "C03"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Functions that combine flows, volumes, proportions and durations are summarised and compared with reference equations in which each conversion by the length of the time step (or by the capacity) is explicit.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the conversions in the functions covered; unit conversions of hydropower included'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 8)


CHECK = C03
