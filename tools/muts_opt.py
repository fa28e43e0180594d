from muts import bug, ref, main
import sys
O, NL = "optimization/optimizer.py", "optimization/nlopt.py"
bug("no-final-update", "C13", (O, "        self._update_parameters(topology, x_opt)\n", ""))
bug("late-bounds", "C13", (O, "        bounds_low, bounds_up = self.optimization_bounds(topology)\n", "        obj_func(x + 0.0, np.zeros(0))\n        bounds_low, bounds_up = self.optimization_bounds(topology)\n") )
bug("no-copy-ad", "C13", (O, "x_func = partial(self._optimize_form, topology=topology.copy(), tmax=tmax, eta=eta)", "x_func = partial(self._optimize_form, topology=topology, tmax=tmax, eta=eta)"))
bug("no-copy-fd", "C13", (O, "topology.copy(), tmax, eta, step_size", "topology, tmax, eta, step_size"))
bug("swapped-bounds", "C13", (NL, "solver.set_lower_bounds(bounds_low)", "solver.set_lower_bounds(bounds_up)"))
bug("eta-default", "C13", (O, "        self._update_parameters(topology, x_opt)\n\n        return static_equilibrium(topology, tmax=tmax, eta=eta)", "        self._update_parameters(topology, x_opt)\n\n        return static_equilibrium(topology)"))
bug("mma-nobounds", "C13", (NL, "    solver.set_upper_bounds(bounds_up)", "    if algorithm != 'MMA':\n        solver.set_upper_bounds(bounds_up)"))
bug("keep-if-max", "C13", (O, "            x_opt = solver.optimize(x)\n", "            x_opt = solver.optimize(x)\n            if solver.last_optimize_result() == 5:\n                x_opt = self.optimization_parameters(topology)\n"))
ref("extract-report", "C13", (O, "        self.evals = evals\n", "        self._report(evals)\n"), (O, "    def optimization_parameters(", "    def _report(self, evals):\n        self.evals = evals\n\n    def optimization_parameters("))
ref("inline-pen", "C13", (O, "        return self._calculate_penalty(eq_state)", "        return sum(c.penalty(eq_state) for c in self.constraints.values())"))
ref("enumerate", "C10 C13", (O, "        for idx, parameter in enumerate(self.parameters.values()):\n            parameters[idx] = parameter.start_value(topology)", "        idx = 0\n        for parameter in self.parameters.values():\n            parameters[idx] = parameter.start_value(topology)\n            idx += 1"))
ref("comp", "C10 C13", (O, "        parameters = np.zeros(self.number_of_parameters())\n", "        return np.array([p.start_value(topology) for p in self.parameters.values()])\n"))
N8, O8 = "optimization/nlopt.py", "optimization/optimizer.py"
bug("lim-iters", "C13", (N8, "solver.set_maxeval(iters)", "solver.set_maxeval(iters + 1)"))
bug("lim-swap", "C13", (O8, "\"eps\": eps,", "\"eps\": kappa,"))
bug("lim-status", "C13", (N8, '"NLOPT_FTOL_REACHED"', '"NLOPT_XTOL_REACHED"'))
bug("lim-alg", "C13", (N8, "\"VAR\": LD_VAR2", "\"VAR\": LD_MMA"))
bug("fd-step", "C12", (O8, "tmax, eta, step_size)\n", "tmax, eta, 1e-6)\n"))
bug("fd-eta", "C12", (O8, "topology=topology.copy(), tmax=tmax, eta=eta)\n            grad_func", "topology=topology.copy(), tmax=tmax, eta=1e-3)\n            grad_func"))
ref("fd-pass", "C12", (O8, "x_func = partial(self._optimize_form, topology=topology.copy(), tmax=tmax, eta=eta)\n            grad_func", "base = topology.copy()\n            x_func = lambda p: self._optimize_form(p, base, tmax, eta)\n            grad_func"))
bug("w-default", "C11", ("optimization/constraints/plane.py", "weight=1.0", "weight=10.0"))
if __name__ == "__main__":
    main(sys.argv[1:])
