from ..report import Check
from ..spec import SpecRunner


class C22(Check):
    id = "C22"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = 'What each statistic (totals, means, frequencies, deviations, goodness of fit, events, duration curves, extremes) stores per step, how it is finished and which values it reports are summarised and compared with the reference equation of the statistic it is named after.'
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the formulas for every number of steps and scenarios; percentiles, correlations and densities are library calls compared by their arguments'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 40)


CHECK = C22
