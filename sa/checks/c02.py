from ..report import Check
from ..spec import SpecRunner


class C02(Check):
    id = "C02"
    technique = "gated value numbering (path-sensitive symbolic summaries of the fields, results and calls of a function) compared with reference equations"
    explanation = "Per-combination functions of nodes, parameters, profiles, control curves and thresholds are summarised as polynomials over the fields at entry, with the index expression of every array access, and compared with equations in which each array is addressed by the combination's position, each ensemble by the combination's member of the named scenario and each series by the time step."
    assumptions = ['numbers are compared as real-number polynomials: rounding is not modelled', 'numpy element-wise and reduction functions have their documented meaning', "calls on other components (parameters' get_value, ...) are opaque but deterministic within one function", 'a function whose summary uses something the reference does not mention is reported as undecided, not as a violation']
    level_note = 'decides the index expressions of the functions covered, for every number of scenarios; the scenario numbering itself (ScenarioCollection) is covered by its own equations'

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 20)


CHECK = C02
