from ..report import Check
from ..spec import SpecRunner


class C24(Check):
    id = "C24"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Every look-up by name (nodes, components, registries, references in a document), every iteration and every naming is summarised as a value under path conditions, with its effectful calls, and compared with a reference.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides which component each look-up returns, when a name is refused, and what is loaded for a reference, for every set of names and loading order; registries are assumed to be filled by register() only'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 8)


CHECK = C24
