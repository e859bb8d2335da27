# Optimisation wrappers.  Interpreted, never executed.


@spec("optimisation.BaseOptimisationWrapper", "get model_variables", props="C14")
def f(self):
    return self._cached.variables


@spec("optimisation.BaseOptimisationWrapper", "get model_variable_map", props="C14")
def f(self):
    return self._cached.variable_map


@spec("optimisation.BaseOptimisationWrapper", "get model_objectives", props="C14")
def f(self):
    return self._cached.objectives


@spec("optimisation.BaseOptimisationWrapper", "get model_constraints", props="C14")
def f(self):
    return self._cached.constraints


@spec("optimisation.platypus.PlatypusWrapper", "evaluate", props="C14")
def f(self, solution):
    for ivar, var in enumerate(self.model_variables):
        j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
        x = np.array(solution[j])
        assert len(x) == var.double_size + var.integer_size
        if var.double_size > 0:
            var.set_double_variables(np.array(x[:var.double_size]))
        if var.integer_size > 0:
            ints = np.round(np.array(x[-var.integer_size:])).astype(np.int32)
            var.set_integer_variables(ints)
    self.run_stats = self.model.run()
    objectives = []
    for r in self.model_objectives:
        if r.is_objective == 'minimise':
            sign = 1.0
        else:
            sign = -1.0
        value = r.aggregated_value()
        objectives.append(sign * value)
    constraints = []
    for c in self.model_constraints:
        x = c.aggregated_value()
        if c.is_double_bounded_constraint:
            constraints.extend([x, x])
        else:
            constraints.append(x)
    if len(constraints) > 0:
        return (objectives, constraints)
    return objectives


@spec("optimisation.pygmo.PygmoWrapper", "fitness", props="C14")
def f(self, solution):
    for ivar, var in enumerate(self.model_variables):
        j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
        var.set_double_variables(np.array(solution[j]).copy())
    self.model.reset()
    self.run_stats = self.model.run()
    objectives = []
    for r in self.model_objectives:
        if r.is_objective == 'minimise':
            sign = 1.0
        else:
            sign = -1.0
        value = r.aggregated_value()
        objectives.append(sign * value)
    eq_constraints = []
    ineq_constraints = []
    for r in self.model_constraints:
        x = r.aggregated_value()
        if r.is_double_bounded_constraint:
            ineq_constraints.append(r.constraint_lower_bounds - x)
            ineq_constraints.append(x - r.constraint_upper_bounds)
        elif r.is_equality_constraint:
            eq_constraints.append(x - r.constraint_lower_bounds)
        elif r.is_lower_bounded_constraint:
            ineq_constraints.append(r.constraint_lower_bounds - x)
        else:
            if not r.is_upper_bounded_constraint:
                raise RuntimeError(f'The bounds if constraint "{r.name}" could not be identified correctly.')
            ineq_constraints.append(x - r.constraint_upper_bounds)
    return objectives + eq_constraints + ineq_constraints


@spec("optimisation.pygmo.PygmoWrapper", "get_bounds", props="C14")
def f(self):
    lower = []
    upper = []
    for var in self.model_variables:
        if var.double_size > 0:
            lower.append(var.get_double_lower_bounds())
            upper.append(var.get_double_upper_bounds())
        if var.integer_size > 0:
            lower.append(var.get_integer_lower_bounds())
            upper.append(var.get_integer_upper_bounds())
    lower = np.concatenate(lower)
    upper = np.concatenate(upper)
    if len(lower) != len(upper):
        raise ValueError('Upper and lower bounds are different lengths. Malformed bound data from Parameter: "{}"'.format(var.name))
    return (lower, upper)


@spec("optimisation.pygmo.PygmoWrapper", "get_nobj", props="C14")
def f(self):
    return len(self.model_objectives)


@spec("optimisation.pygmo.PygmoWrapper", "get_nic", props="C14")
def f(self):
    count = 0
    for c in self.model_constraints:
        if c.is_double_bounded_constraint:
            count += 2
        elif c.is_lower_bounded_constraint or c.is_upper_bounded_constraint:
            count += 1
    return count




@spec("_model.Model", "is_feasible", props="C14 C29")
def f(self):
    for c in self.constraints:
        if c.is_constraint_violated():
            return False
    return True


@spec("optimisation.platypus.PlatypusWrapper", "_make_variables", props="C14", calls="setitem next")
def f(self, variables):
    ix = 0
    for var in variables:
        if var.double_size > 0:
            lower = var.get_double_lower_bounds()
            upper = var.get_double_upper_bounds()
            for i in range(var.double_size):
                self.problem.types[ix] = platypus.Real(lower[i], upper[i])
                ix += 1
        if var.integer_size > 0:
            lower = var.get_integer_lower_bounds()
            upper = var.get_integer_upper_bounds()
            for i in range(var.integer_size):
                self.problem.types[ix] = platypus.Real(lower[i], upper[i])
                ix += 1


@spec("optimisation.platypus.PlatypusWrapper", "_make_constraints", props="C14", calls="setitem next")
def f(self, constraints):
    ic = 0
    for c in constraints:
        if c.is_double_bounded_constraint:
            self.problem.constraints[ic] = platypus.Constraint('>=', value=c.constraint_lower_bounds)
            self.problem.constraints[ic + 1] = platypus.Constraint('<=', value=c.constraint_upper_bounds)
            ic += 2
        elif c.is_equality_constraint:
            self.problem.constraints[ic] = platypus.Constraint('==', value=c.constraint_lower_bounds)
            ic += 1
        elif c.is_lower_bounded_constraint:
            self.problem.constraints[ic] = platypus.Constraint('>=', value=c.constraint_lower_bounds)
            ic += 1
        else:
            if not c.is_upper_bounded_constraint:
                raise RuntimeError(f'The bounds of constraint "{c.name}" could not be identified correctly.')
            self.problem.constraints[ic] = platypus.Constraint('<=', value=c.constraint_upper_bounds)
            ic += 1


@spec("optimisation.platypus.PywrRandomGenerator", "generate", props="C14", calls="setitem extend")
def f(self, problem):
    solution = None
    if self.wrapper is not None:
        if self.use_current and not self._wrapped_generated:
            solution = platypus.Solution(problem)
            variables = []
            for var in self.wrapper.model_variables:
                if var.double_size > 0:
                    variables.extend(np.array(var.get_double_variables(), dtype=np.float64))
                if var.integer_size > 0:
                    variables.extend(np.array(var.get_integer_variables(), dtype=np.int32))
            solution.variables[:] = variables
            self._wrapped_generated = True
        elif self.solutions is not None and self._solution_pointer < len(self.solutions):
            solution = platypus.Solution(problem)
            given_solution = self.solutions[self._solution_pointer]
            variables = []
            for var in self.wrapper.model_variables:
                if var.double_size > 0:
                    values = np.array(given_solution[var.name]["doubles"], dtype=np.float64).clip(
                        var.get_double_lower_bounds(), var.get_double_upper_bounds())
                    variables.extend(values)
                if var.integer_size > 0:
                    values = np.array(given_solution[var.name]["integers"], dtype=np.int32).clip(
                        var.get_integer_lower_bounds(), var.get_integer_upper_bounds())
                    variables.extend(values)
            solution.variables[:] = variables
            self._solution_pointer += 1
    if solution is None:
        solution = super().generate(problem)
    return solution
