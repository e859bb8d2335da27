from ..report import Check
from ..spec import SpecRunner


class C18(Check):
    id = "C18"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Calendar look-ups are summarised as conditions over month, week and day-of-year with the leap-day shift explicit and compared with reference equations.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the index of every look-up for every date, leap or not'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 8)


CHECK = C18
