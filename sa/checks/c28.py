from ..report import Check
from ..spec import SpecRunner


class C28(Check):
    id = "C28"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'The solver chosen, its options, the calls a run makes and the fields of its result are summarised under path conditions and compared with reference equations.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the solver and options for every setting and environment, the sequence of a run and what the result reports; wall-clock readings are opaque'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 6)


CHECK = C28
