from ..report import Check
from ..spec import SpecRunner


class C06(Check):
    id = "C06"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = "The step-end updates of every node class (flow history, previous flow, committed flow, and the derived flows of aggregated, virtual and compound nodes) are summarised as path-conditioned polynomials over the fields at entry and compared with the equations previous flow' = flow at the end of the step, and zero after reset."
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = "decides the update equations of each class for every input; the order in which the engine calls them is C05's"

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 10)


CHECK = C06
