from ..report import Check
from ..spec import SpecRunner


class C21(Check):
    id = "C21"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = "What each parameter's value, index or vector of values is, as a function of its own settings, the values of the components it refers to, the time step and the scenario, is summarised per path and compared with the reference equation of its documentation; so are the settings it keeps and the state it carries from step to step."
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the function of every parameter covered for every input; interpolation, quadrature and random draws are library calls compared by their arguments'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 60)


CHECK = C21
