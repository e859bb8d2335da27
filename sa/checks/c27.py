from ..report import Check
from ..spec import SpecRunner


class C27(Check):
    id = "C27"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Reading, selecting and resampling are summarised as values under path conditions, with readers and frame operations as opaque functions of their arguments, and compared with reference equations.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides which reader, selection and resampling is applied to which data in which case; what pandas does with them is assumed'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 4)


CHECK = C27
