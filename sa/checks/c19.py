from ..report import Check
from ..spec import SpecRunner


class C19(Check):
    id = "C19"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'Balance functions (committed flow to storage volume, virtual storage and licence drawdown, weighted member sums of aggregated nodes, net/gross flows of compound nodes, reset volumes) are summarised and compared with reference equations, with the sign, weight, day count and member range of each term.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = "decides the equations for every input and every number of members; that the solver hands over the right flows is C08's"

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 15)


CHECK = C19
