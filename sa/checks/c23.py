from ..report import Check
from ..spec import SpecRunner


class C23(Check):
    id = "C23"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = "The time-stepper's construction, setters, preparation, reset and step functions are summarised and compared with reference equations: the periods it steps through, the length of each, the step returned by each call and where it stops, for fixed, monthly and named frequencies."
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the step returned for every state of the time-stepper; pandas period arithmetic is assumed'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 8)


CHECK = C23
