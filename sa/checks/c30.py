from ..report import Check
from ..spec import SpecRunner


class C30(Check):
    id = "C30"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Loading, checking, set-up and the step loop of several models are summarised as calls and written fields under path conditions and compared with reference equations.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides what each model is loaded from, the order of phases across models and what is refused, for every number of models'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 4)


CHECK = C30
