from ..report import Check
from ..spec import SpecRunner


class C25(Check):
    id = "C25"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'The sub-nodes a compound node creates, their connections, and the nodes each slot stands for, are summarised as calls and generated values under path conditions and compared with reference equations.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the internal network of every compound node and the edges every connection adds or removes, for every number of steps, slots and factors'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 8)


CHECK = C25
