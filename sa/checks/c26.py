from ..report import Check
from ..spec import SpecRunner


class C26(Check):
    id = "C26"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Every function that refuses anything is summarised as the set of path conditions under which it raises; these conditions are compared with those of a reference, in both directions.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides when each function refuses its input, for every input; an exception raised inside an opaque call is not part of the condition'

    def run(self):
        r = SpecRunner(self, self.id)
        r.refusals = True
        r.run()
        self.floor("functions_compared", 20)


CHECK = C26
