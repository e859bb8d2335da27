from ..report import Check
from ..spec import SpecRunner


class C14(Check):
    id = "C14"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'The optimisation interface of every class that has one (number of variables, getters, setters, lower and upper bounds, constraint tests) is summarised and compared with reference equations in which getters, setters and bounds use the same members in the same order.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides order and identity of the variables; the optimisation libraries themselves are outside'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 10)


CHECK = C14
