from ..report import Check
from ..spec import SpecRunner


class C17(Check):
    id = "C17"
    technique = "gated value numbering: setter and getter bodies composed and compared under the laws of assignment"
    explanation = 'Each setter is composed with each query (attribute, single scenario, all scenarios) and with the other setter; the result must be the value assigned last, for numbers and for parameters, and the all-scenario query must agree element by element with the single-scenario query, in the class and in each subclass that overrides one of them.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'laws are checked on the source text of setters and getters for arbitrary prior contents of the object; None and the load path included'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("laws_compared", 30)


CHECK = C17
