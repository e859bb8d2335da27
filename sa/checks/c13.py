from ..report import Check
from ..spec import SpecRunner


class C13(Check):
    id = "C13"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'For each option chosen by name, the function that implements it is summarised once per value of the option and compared with the behaviour the name stands for; a value outside the set must raise.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the selected operation for each accepted value; numerical quality of numpy/scipy reductions is assumed'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 6)


CHECK = C13
