"""Behaviour-preserving edits, see quiet.py."""
MODEL = "C01 C02 C03 C30 C14 C12 C31 C32 C34"
E("m1", MODEL, {"model": [
 ('''        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])

        # compute linear''', '''        matrix = np.exp(-np.outer(self.radii ** 2, expons))

        # compute linear'''),
 ('''            d_coeffs = np.concatenate((gs[1][:, :self.ns], gp[1][:, :self.np]), axis=1)
                d_expons = np.concatenate((gs[1][:, self.ns:], gp[1][:, self.np:]), axis=1)
                return gs[0] + gp[0], np.concatenate((d_coeffs, d_expons), axis=1)''',
  '''            parts = [gs[1][:, :self.ns], gp[1][:, :self.np], gs[1][:, self.ns:], gp[1][:, self.np:]]
                return gs[0] + gp[0], np.hstack(parts)'''),
]})
E("m2", MODEL, {"model": [
 ('''        # normalize Gaussian basis
        if self.normalized:
            matrix = matrix * (expons[None, :] / np.pi) ** 1.5
        # make linear combination of Gaussian basis on the grid
        g = np.dot(matrix, coeffs)
''', '''        # normalize Gaussian basis
        if self.normalized:
            matrix = self._normalise(matrix, expons)
        # make linear combination of Gaussian basis on the grid
        g = np.einsum("ij,j->i", matrix, coeffs)
'''),
 ('''    def _eval_p(self, matrix''', '''    @staticmethod
    def _normalise(matrix, expons):
        """Multiply every column with the normalisation constant of its function."""
        return matrix * np.power(expons[np.newaxis, :] / np.pi, 1.5)

    def _eval_p(self, matrix'''),
 ('''            radii = np.linalg.norm(points - self.coord, axis=1)
        else:
            radii = np.abs(points - self.coord)
''', '''            radii = np.sqrt(np.sum((points - self.coord) ** 2, axis=1))
        else:
            radii = np.sqrt((points - self.coord) ** 2)
'''),
]})
E("m3", MODEL, {"model": [
 ('''        # make linear combination of Gaussian basis on the grid
        g = np.dot(matrix, coeffs)
        if deriv:
            dg = np.zeros((len(self.radii), 2 * coeffs.size))
            # derivative w.r.t. coefficients
            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])
            matrix = matrix * np.power(self.radii, 2)[:, None]
            dg[:, coeffs.size:] += 5 * matrix * (coeffs * expons**1.5)[None, :] / (3 * np.pi**1.5)
            return g, dg''', '''        # make linear combination of Gaussian basis on the grid
        g = matrix @ coeffs
        if deriv:
            rsq = np.square(self.radii).reshape(-1, 1)
            gauss = rsq * np.exp(-rsq * expons.reshape(1, -1))
            d_expons = -matrix * rsq * coeffs + 5 * gauss * (coeffs * expons * np.sqrt(expons)) / (3 * np.pi**1.5)
            return g, np.column_stack((matrix, d_expons))'''),
 ('''        return np.array([1.5] * self.ns + [2.5] * self.np)''', '''        factors = np.full(self.nbasis, 1.5)
        factors[self.ns:] = 2.5
        return factors'''),
]})
E("m4", MODEL, {"model": [
 ('''            dg = np.zeros((len(self.radii), 2 * coeffs.size))
            # derivative w.r.t. coefficients
            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])
                dg[:, coeffs.size:] += 1.5 * matrix * (coeffs * expons**0.5)[None, :] / np.pi**1.5
            return g, dg''', '''            nfunc = coeffs.size
            dg = np.empty((self.radii.size, 2 * nfunc))
            for k in range(nfunc):
                dg[:, k] = matrix[:, k]
                dg[:, nfunc + k] = -coeffs[k] * self.radii**2 * matrix[:, k]
                if self.normalized:
                    bare = np.exp(-expons[k] * self.radii**2)
                    dg[:, nfunc + k] += 1.5 * bare * coeffs[k] * np.sqrt(expons[k]) / np.pi**1.5
            return g, dg'''),
]})
E("m5", MODEL, {"model": [
 ('''        # compute linear combination of Gaussian basis
        if self.np == 0:
            # only s-type Gaussian basis functions
            return self._eval_s(matrix, coeffs, expons, deriv)
        elif self.ns == 0:
            # only p-type Gaussian basis functions
            return self._eval_p(matrix, coeffs, expons, deriv)
        else:
            # both s-type & p-type Gaussian basis functions
            gs = self''', '''        # compute linear combination of Gaussian basis
        only_s, only_p = not self.np, not self.ns
        if only_s or only_p:
            routine = self._eval_s if only_s else self._eval_p
            return routine(matrix, coeffs, expons, deriv)
        else:
            # both s-type & p-type Gaussian basis functions
            gs = self'''),
 ('''        elif points.ndim > 1:
            center = np.array([0.] * points.shape[1])
        else:
            center = np.array([0.])
''', '''        else:
            center = np.zeros(points.shape[1] if points.ndim > 1 else 1)
'''),
]})
E("m6", MODEL, {"model": [
 ('''        # compute the number of basis on each center
        nbasis = np.sum(self._basis, axis=1)
        # get the center to which the basis function belongs
        index = np.where(np.cumsum(nbasis) >= index + 1)[0][0]
        return index''', '''        # walk over the centers until the one which owns the function
        last = 0
        for atom, row in enumerate(self._basis):
            last += row[0] + row[1]
            if index < last:
                return atom'''),
 ('''        total_g = np.zeros(len(self.points))
        if deriv:
            total_dg = np.zeros((len(self.points), 2 * self.nbasis))
        # compute contribution of each center
        count = 0
        for center in self.center:
            # get coeffs & expons of center
            cs = coeffs[count: count + center.nbasis]
            es = expons[count: count + center.nbasis]
            if deriv:
                # compute linear combination of gaussian placed on center & its derivatives
                g, dg = center.evaluate(cs, es, deriv)
                # split derivatives w.r.t. coeffs & expons
                dg_c = dg[:, :center.nbasis]
                dg_e = dg[:, center.nbasis:]
                # add contributions to the total array
                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
            else:
                # compute linear combination of gaussian placed on center
                total_g += center.evaluate(cs, es, deriv)
            count += center.nbasis
        if deriv:
            return total_g, total_dg
        return total_g''', '''        ends = np.cumsum([center.nbasis for center in self.center])
        values, d_coeffs, d_expons = [], [], []
        for center, end in zip(self.center, ends):
            part = slice(end - center.nbasis, end)
            result = center.evaluate(coeffs[part], expons[part], deriv)
            if not deriv:
                values.append(result)
                continue
            values.append(result[0])
            left, right = np.split(result[1], 2, axis=1)
            d_coeffs.append(left)
            d_expons.append(right)
        total = np.sum(values, axis=0)
        if not deriv:
            return total
        return total, np.concatenate(d_coeffs + d_expons, axis=1)'''),
]})
E("m7", MODEL, {"model": [
 ('''        self.center = []
        self._radii = []
        for i, b in enumerate(basis):
            # get the center of Gaussian basis functions
            self.center.append(AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
            self._radii.append(self.center[-1].radii)
        self._radii = np.array(self._radii)
''', '''        self.center = [AtomicGaussianDensity(points, xyz, *row, normalize=normalize)
                       for xyz, row in zip(coords, basis)]
        self._radii = np.vstack([atom.radii for atom in self.center])
'''),
 ('''        return np.sum(self._basis)
''', '''        return sum(center.nbasis for center in self.center)
'''),
 ('''        return np.concatenate([center.prefactor for center in self.center])''', '''        rows = []
        for num_s, num_p in self._basis:
            rows.extend([1.5] * num_s)
            rows.extend([2.5] * num_p)
        return np.array(rows)'''),
]})
MEAS = "C04 C05 C06 C30 C12 C11 C32 C34"
E("me1", MEAS, {"measure": [
 ('''        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)

        # compute KL divergence
''', '''        keep = model > self.mask_value
        ratio = np.ones(model.shape)
        ratio[keep] = density[keep] / model[keep]

        # compute KL divergence
'''),
]})
E("me2", MEAS, {"measure": [
 ('''        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)

        # compute KL divergence
''', '''        masked = model <= self.mask_value
        ratio = np.where(masked, 1.0, density / np.where(masked, 1.0, model))

        # compute KL divergence
'''),
 ('''        if np.any(model < 0.):
            if deriv:
                # Add an incredibly large derivative
                return np.array([self.negative_val] * model.shape[0]), \\
                       np.array([self.negative_val] * model.shape[0])
            return np.array([self.negative_val] * model.shape[0])
''', '''        if not (model >= 0.).all():
            penalty = np.full(len(model), self.negative_val)
            return (penalty, penalty.copy()) if deriv else penalty
'''),
 ('''        value[density == 0.] = 0.
''', '''        value = np.where(density == 0., 0., value)
'''),
]})
E("me3", MEAS, {"measure": [
 ('''        if np.any(model < 0.):
            if deriv:
                # Add an incredibly large derivative
                return np.array([self.negative_val] * model.shape[0]), \\
                       np.array([self.negative_val] * model.shape[0])
            return np.array([self.negative_val] * model.shape[0])
''', '''        if min(model) < 0.:
            return self._penalty(model.size, deriv)
'''),
 ('''class TsallisDivergence(Measure):''', '''    def _penalty(self, size, deriv):
        """Return the value (and derivative) used for a negative model."""
        value = self.negative_val * np.ones(size)
        if deriv:
            return value, self.negative_val * np.ones(size)
        return value


class TsallisDivergence(Measure):'''),
]})
E("me4", MEAS, {"measure": [
 ('''        ratio = np.ma.filled(ratio, fill_value=0.0)
        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
        integrand = value / (self.alpha - 1.0)
        if deriv:
            return integrand, -np.power(ratio, self.alpha)
        return integrand''', '''        ratio = ratio.filled(0.0)
        order = self.alpha - 1.0
        integrand = (density * ratio**order - density) / order
        return (integrand, -(ratio**self.alpha)) if deriv else integrand'''),
 ('''        # compute residual
        residual = density - model
        # compute squared residual
        value = np.power(residual, 2)
        # compute derivative of squared residual w.r.t. model
        if deriv:
            return value, -2 * residual
        return value''', '''        difference = np.subtract(model, density)
        squared = difference * difference
        return squared if not deriv else (squared, 2.0 * difference)'''),
]})
FIT = "C11 C12 C13 C14 C15 C16 C17 C27 C21 C22 C31 C32 C33 C34"
E("f1", FIT, {"fit": [
 ('''        if self.spherical:
            return self.grid.integrate(integrand * 4.0 * np.pi * self.grid.points**2.0)
        return self.grid.integrate(integrand)''', '''        if self.spherical:
            jacobian = 4.0 * np.pi * np.square(self.grid.points)
            integrand = jacobian * integrand
        return self.grid.integrate(integrand)'''),
 ('''        m, dm = self.evaluate_model(x, *args)
        # compute KL divergence
        k, dk = self.measure.evaluate(self.density, m, deriv=True)
        # compute objective function & its derivative
        obj = self.integrate(self.weights * k)
        d_obj = np.zeros(len(x))
        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj''', '''        m, dm = self.evaluate_model(x, *args)
        # compute KL divergence
        k, dk = self.measure.evaluate(self.density, m, deriv=True)
        factor = self.weights * dk
        grad = np.array([self.integrate(factor * column) for column in dm.T], dtype=float)
        return self.integrate(self.weights * k), grad'''),
]})
E("f2", FIT, {"fit": [
 ('''        avrg1, avrg2 = np.zeros(self.model.nbasis), np.zeros(self.model.nbasis)
        for index in range(self.model.nbasis):
            integrand = -dk * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    center_index = self.model.assign_basis_to_center(index)
                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)

        # compute updated coeffs & expons
        if update_coeffs:
            coeffs = coeffs * avrg1 / self._lm
        if update_expons:
            expons = self.model.prefactor * avrg1 / avrg2
        return coeffs, expons
''', '''        integrands = [-dk * dm[:, index] for index in range(self.model.nbasis)]
        avrg1 = np.array([self.integrate(y) for y in integrands])

        # compute updated coeffs & expons
        if update_coeffs:
            coeffs = coeffs * avrg1 / self._lm
        if update_expons:
            avrg2 = np.array([self.integrate(y * self._radii_of(index) ** 2)
                              for index, y in enumerate(integrands)])
            expons = self.model.prefactor * (avrg1 / avrg2)
        return coeffs, expons

    def _radii_of(self, index):
        """Return the distances of the grid points from the center of a basis function."""
        if self.model.natoms > 1:
            return self.model.radii[self.model.assign_basis_to_center(index)]
        return self.model.radii.ravel()
'''),
 ('''        approx = self.model.evaluate(coeffs, expons)
        diff = np.abs(self.density - approx)
        return [
            self.integrate(approx),
            self.integrate(diff),
            np.max(diff),
            self.integrate(self.ls_error.evaluate(self.density, approx, deriv=False)),
            self.integrate(self.kl_error.evaluate(self.density, approx, deriv=False))
        ]''', '''        approx = self.model.evaluate(coeffs, expons)
        diff = abs(approx - self.density)
        errors = [error.evaluate(self.density, approx) for error in (self.ls_error, self.kl_error)]
        l_1, l_infinity = self.integrate(diff), diff.max()
        return [self.integrate(approx), l_1, l_infinity] + [self.integrate(e) for e in errors]'''),
]})
E("f3", FIT, {"fit": [
 ('''        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
''', '''        while maxiter > niter:
            params_moving = max_diff_expons > e_threshold or max_diff_coeffs > c_threshold
            if not (params_moving and diff_divergence > d_threshold):
                break
'''),
 ('''            if opt_coeffs and opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, True, True)
            elif opt_coeffs:
                new_cs, new_es = self._update_params(new_cs, new_es, True, False)
            elif opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, False, True)
            else:
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
''', '''            if not (opt_coeffs or opt_expons):
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
            new_cs, new_es = self._update_params(
                new_cs, new_es, update_coeffs=opt_coeffs, update_expons=opt_expons
            )
'''),
 ('''            if niter != 1:
                diff_divergence = np.abs(performance[niter - 1][-1] - performance[niter - 2][-1])
''', '''            if len(fun) > 1:
                diff_divergence = abs(fun[-1] - fun[-2])
'''),
 ('''        if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
            success = False
        elif np.any(np.isnan(new_cs)) or np.any(np.isnan(new_es)) or np.any(np.isnan(fun[-1:])):
            # the iteration broke down, the comparisons with NaN above ended it
            success = False
        else:
            success = True
''', '''        out_of_steps = niter == maxiter and diff_divergence > d_threshold
        numbers = [diff_divergence, *new_cs, *new_es, *fun[-1:]]
        success = not out_of_steps and not any(np.isnan(x) for x in numbers)
'''),
]})
E("f4", FIT, {"fit": [
 ('''        if len(args) != 0:
            if args[0] == "fixed_coeffs":
                coeffs = args[1]
                expons = x
                start, end = self.model.nbasis, 2 * self.model.nbasis
            elif args[0] == "fixed_expons":
                coeffs = x
                expons = args[1]
                start, end = 0, self.model.nbasis
            else:
                raise ValueError("Argument args is not understandable!")
        else:
            coeffs, expons = x[:self.model.nbasis], x[self.model.nbasis:]
            start, end = 0, 2 * self.model.nbasis
        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, start: end]''', '''        nbasis = self.model.nbasis
        if not args:
            coeffs, expons = np.split(x, 2)
            columns = slice(None)
        elif args[0] == "fixed_coeffs":
            coeffs, expons = args[1], x
            columns = slice(nbasis, None)
        elif args[0] == "fixed_expons":
            coeffs, expons = x, args[1]
            columns = slice(None, nbasis)
        else:
            raise ValueError("Argument args is not understandable!")
        # compute model density & its derivative
        value, gradient = self.model.evaluate(coeffs, expons, deriv=True)
        return value, gradient[:, columns]'''),
 ('''        m, _ = self.evaluate_model(x, *args)
        cons = self.integral_dens - self.integrate(m)
        return cons''', '''        return self.integral_dens - self.integrate(self.evaluate_model(x, *args)[0])'''),
 ('''        if opt_coeffs and opt_expons:
            coeffs, expons = res["x"][:self.model.nbasis], res["x"][self.model.nbasis:]
        elif opt_coeffs:
            coeffs, expons = res["x"], e0
        else:
            coeffs, expons = c0, res["x"]
''', '''        coeffs, expons = c0, e0
        if opt_coeffs:
            coeffs = res.x[:self.model.nbasis]
        if opt_expons:
            expons = res.x[-self.model.nbasis:]
'''),
]})
E("f5", FIT, {"fit": [
 ('''        if np.any(density < 0.):
            raise''', '''        if (density < 0.).any():
            raise'''),
 ('''        if np.any(abs(grid.points - model.points) > 1.e-12):''', '''        if np.max(np.abs(grid.points - model.points)) > 1.e-12:'''),
 ('''        if integral_dens is None:
            self._integral_dens = self.integrate(density)
        else:
            self._integral_dens = integral_dens
''', '''        self._integral_dens = integral_dens if integral_dens is not None else self.integrate(density)
'''),
 ('''        self._lm = self.integrate(self.density) / self.integral_dens
        if self._lm == 0. or np.isnan(self._lm):''', '''        norm = self.integrate(self.density)
        self._lm = norm / self.integral_dens
        if not np.abs(self._lm) > 0.:'''),
 ('''        if weights is None:
            weights = np.ones(len(density))
        self.weights = weights
''', '''        self.weights = np.ones_like(density) if weights is None else weights
'''),
]})
E("f6", FIT, {"fit": [
 ('''            constraints = []
        if with''' if False else '''        constraints = []
        if with_constraint:
            if self.method == "slsqp":
                constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
            elif self.method == "trust-constr":
                # minimize() does not pass args to the constraint, so they are attached here
                constraints = [
                    NonlinearConstraint(lambda x: self.const_norm(x, *args), 0.0, 0.0,
                                        jac="3-point")
                ]
''', '''        def deviation(x):
            return self.const_norm(x, *args)

        constraints = []
        if with_constraint and self.method == "slsqp":
            constraints.append({"fun": deviation, "type": "eq"})
        elif with_constraint:
            constraints.append(NonlinearConstraint(deviation, lb=0.0, ub=0.0, jac="3-point"))
'''),
 ('''        res = minimize(fun=self.func,
                       x0=x0,
                       args=args,
                       method=self.method,''', '''        res = minimize(lambda x: self.func(x, *args),
                       x0,
                       method=self.method,'''),
]})
GREEDY = "C18 C19 C20 C21 C22 C31 C32 C33 C34"
E("g1", GREEDY, {"greedy": [
 ('''    new_coeffs = coeffs.copy()
    new_exps = fparams.copy()

    # Indexes where they're the same.
    indexes_same = []
    indexes_removed = []
    for i, alpha in enumerate(fparams):
        similar_indexes = []
        # An index that already joined a group is removed, so nothing can be joined to it.
        if i in indexes_removed:
            continue
        for j in range(i + 1, len(fparams)):
            if j not in indexes_removed:
                if np.abs(alpha - fparams[j]) < eps:
                    if i not in similar_indexes:
                        similar_indexes.append(i)
                    similar_indexes.append(j)
                    indexes_removed.append(j)
        if len(similar_indexes) != 0:
            indexes_same.append(similar_indexes)

    # Add the coefficients together and add/group them, if need be
    for group_similar_items in indexes_same:
        for i in range(1, len(group_similar_items)):
            new_coeffs[group_similar_items[0]] += coeffs[group_similar_items[i]]

    if len(indexes_same) != 0:
        indices = [y for x in indexes_same for y in x[1:]]
        new_exps = np.delete(new_exps, indices)
        new_coeffs = np.delete(new_coeffs, indices)
    return new_coeffs, new_exps
''', '''    kept = []
    owner = {}
    for j, beta in enumerate(fparams):
        for i in kept:
            if abs(fparams[i] - beta) < eps:
                owner[j] = i
                break
        else:
            kept.append(j)
    new_coeffs = np.array([coeffs[i] for i in kept])
    for j, i in owner.items():
        new_coeffs[kept.index(i)] += coeffs[j]
    return new_coeffs, fparams[kept].copy()
'''),
]})
E("g2", GREEDY, {"greedy": [
 ('''    size = fparams.shape[0]
    all_choices = []
    for index, exp in np.ndenumerate(fparams):
        if index[0] == 0:
            exps_arr = np.insert(fparams, index, exp / factor)
            coeffs_arr = np.insert(coeffs, index, coeff_val)
        elif index[0] <= size:
            exps_arr = np.insert(fparams, index, (fparams[index[0] - 1] +
                                                  fparams[index[0]]) / 2)
            coeffs_arr = np.insert(coeffs, index, coeff_val)
        all_choices.append(np.append(coeffs_arr, exps_arr))
        if index[0] == size - 1:
            exps_arr = np.append(fparams, np.array([exp * factor]))
            endpt = np.append(coeffs, np.array([coeff_val]))
            all_choices.append(np.append(endpt, exps_arr))
    return all_choices
''', '''    middle = 0.5 * (fparams[1:] + fparams[:-1])
    inserted = np.concatenate(([fparams[0] / factor], middle, [fparams[-1] * factor]))
    return [
        np.concatenate((coeffs[:k], [coeff_val], coeffs[k:], fparams[:k], [new], fparams[k:]))
        for k, new in enumerate(inserted)
    ]
'''),
 ('''    for p in two_choices:
        coeff, exp = p[:len(p) // 2], p[len(p) // 2:]
        for j in range(0, len(p) // 2):
            new_coeff = np.delete(coeff, j)
            new_exp = np.delete(exp, j)
            all_choices.append(np.append(new_coeff, new_exp))
    return all_choices
''', '''    for choice in two_choices:
        table = choice.reshape(2, -1)
        all_choices += [np.delete(table, j, axis=1).ravel() for j in range(table.shape[1])]
    return all_choices
'''),
]})
E("g3", GREEDY, {"greedy": [
 ('''        size = exps.shape[0]
        all_choices_of_exponents = []
        all_choices_of_coeffs = []
        for index, exp in np.ndenumerate(exps):
            if index[0] == 0:
                exponent_array = np.insert(exps, index, exp / factor)
                coefficient_array = np.insert(coeffs, index, coeff_val)
            elif index[0] <= size:
                exponent_array = np.insert(exps, index, (exps[index[0] - 1] + exps[index[0]]) / 2)
                coefficient_array = np.insert(coeffs, index, coeff_val)
            all_choices_of_exponents.append(exponent_array)
            all_choices_of_coeffs.append(coefficient_array)
            if index[0] == size - 1:
                exponent_array = np.append(exps, np.array([exp * factor]))
                all_choices_of_exponents.append(exponent_array)
                all_choices_of_coeffs.append(np.append(coeffs, np.array([coeff_val])))
        return all_choices_of_coeffs, all_choices_of_exponents
''', '''        both = [np.split(c, 2) for c in get_next_choices(factor, coeffs, exps, coeff_val)]
        return [b[0] for b in both], [b[1] for b in both]
'''),
 ('''    all_choices_params = []
    for i, c in enumerate(choices_coeff):
        all_choices_params.append(np.append(c, choices_fparams[i]))
    return all_choices_params
''', '''    return [np.hstack(pair) for pair in zip(choices_coeff, choices_fparams)]
'''),
]})
E("g4", GREEDY, {"greedy": [
 ('''        # Initialize the values being returned.
        best_local_value = np.inf
        best_local_param = None
        is_s_optimal = False
        for i in range(0, num_s_choices + num_p_choices):
            # Get the function parameter guess.
            param = param_list[i]

            # Update model for the new number of S-type and P-type functions.
            if i < num_s_choices:
                # Update the number of s-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s + self.numb_func_increase, self.num_p
                )
            else:
                # Update the number of p-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s, self.num_p + self.numb_func_increase
                )

            # Optimize using this initial guess and get cost-function value.
            local_param = self.get_optimization_routine(param, local=True)
            cost_func = self.eval_obj_function(local_param)
            # If it is the best found, then return it.
            if cost_func < best_local_value:
                best_local_value = self.eval_obj_function(local_param)
                best_local_param = local_param
                is_s_optimal = bool(i < num_s_choices)
        return best_local_value, best_local_param, is_s_optimal
''', '''        best = (np.inf, None, False)
        step = self.numb_func_increase
        for i, guess in enumerate(param_list[:num_s_choices + num_p_choices]):
            extra_s = i < num_s_choices
            new_s, new_p = (self.num_s + step, self.num_p) if extra_s else (self.num_s, self.num_p + step)
            self.model.change_numb_s_and_numb_p(new_s, new_p)
            # Optimize using this initial guess and get cost-function value.
            found = self.get_optimization_routine(guess, local=True)
            value = self.eval_obj_function(found)
            best = (value, found, extra_s) if value < best[0] else best
        return best
'''),
]})
E("g5", GREEDY, {"greedy": [
 ('''        s_coeffs = params[:self.num_s]
        p_coeffs = params[self.num_s:self.num_s + self.num_p]
        s_exps = params[self.num_s + self.num_p:2 * self.num_s + self.num_p]
        p_exps = params[2 * self.num_s + self.num_p:]
        return s_coeffs, s_exps, p_coeffs, p_exps''', '''        coeffs, exps = np.split(params, 2)
        (s_coeffs, p_coeffs), (s_exps, p_exps) = (
            np.split(x, [self.num_s]) for x in (coeffs, exps)
        )
        return s_coeffs, s_exps, p_coeffs, p_exps'''),
 ('''        model = self.model.evaluate(params[:len(params)//2], params[len(params)//2:])
        integrand = self.measure.evaluate(self.density, model)
        return self.fitting_obj.integrate(integrand)''', '''        half = len(params) // 2
        approx = self.model.evaluate(params[:half], params[half:])
        return self.fitting_obj.integrate(self.measure.evaluate(self.density, approx))'''),
 ('''        if len(self.err_arr) == 0:
            self.err_arr = [err]
        else:
            self.err_arr.append(err)
''', '''        self.err_arr = self.err_arr + [err]
'''),
]})
E("g6", GREEDY, {"greedy": [
 ('''        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \\
                np.abs(best_gval - prev_gval) >= d_threshold:
            s_coeffs''', '''        while numb_redum < 5:
            if numb_funcs + self.numb_func_increase > max_numb_funcs:
                break
            if not np.abs(best_gval - prev_gval) >= d_threshold:
                break
            s_coeffs'''),
 ('''                if is_s_optimal:
                    self.num_s -= self.numb_func_increase
                else:
                    self.num_p -= self.numb_func_increase
                self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
                numb_funcs -= self.numb_func_increase
''', '''                self.num_s, self.num_p = old_numbers
                self.model.change_numb_s_and_numb_p(*old_numbers)
                numb_funcs = sum(old_numbers)
'''),
 ('''            # Update model for the new number of S-type and P-type functions.
            if is_s_optimal:
                # If adding''', '''            # Update model for the new number of S-type and P-type functions.
            old_numbers = (self.num_s, self.num_p)
            if is_s_optimal:
                # If adding'''),
 ('''        results = {"coeffs": coeffs,
                   "exps": expons,
                   "num_s": self.num_s,
                   "num_p": self.num_p,
''', '''        num_s, num_p = self.model.num_s, self.model.num_p
        results = {"coeffs": coeffs,
                   "exps": expons,
                   "num_s": num_s,
                   "num_p": num_p,
'''),
]})
E("g7", GREEDY, {"greedy": [
 ('''        a = 2.0 * np.sum(weight)
        sum_of_grid_squared = np.sum(weight * np.power(points, 2))
        b = 2.0 * sum_of_grid_squared
        sum_ln_electron_density = np.sum(weight * ln_density)
        c = 2.0 * sum_ln_electron_density
        d = b
        e = 2.0 * np.sum(weight * np.power(points, 4))
        f = 2.0 * np.sum(weight * np.power(points, 2) * ln_density)
        big_a = (b * f - c * e) / (b * d - a * e)
        big_b = (a * f - c * d) / (a * e - b * d)
        coefficient = np.exp(big_a)
        exponent = - big_b
        return np.array([coefficient, exponent])''', '''        rsq = points**2
        s0, s1, s2 = weight.sum(), np.dot(weight, rsq), np.dot(weight, rsq**2)
        t0, t1 = np.dot(weight, ln_density), np.dot(weight * rsq, ln_density)
        det = s0 * s2 - s1**2
        return np.array([np.exp((s2 * t0 - s1 * t1) / det), (s1 * t0 - s0 * t1) / det])'''),
 ('''        p_min = min(
            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
        )
        return p_min[1]''', '''        costs = [cost_func1, cost_func2, cost_func3]
        return (p1, p2, p3)[int(np.argmin(costs))]'''),
 ('''        exponents_s = exponents[:self.model.num_s]
        grid_squared_col = np.power(self.grid.points, 2.0).reshape((len(self.grid.points), 1))
        exponential = np.exp(-exponents_s * grid_squared_col)

        if self.model.num_p != 0:
            exponents_p = exponents[self.model.num_s:]
            exponential = np.hstack(
                (exponential, grid_squared_col * np.exp(-exponents_p * grid_squared_col))
            )
        return exponential''', '''        rsq = self.grid.points**2
        matrix = np.exp(-np.outer(rsq, exponents))
        matrix[:, self.model.num_s:] *= rsq[:, None]
        return matrix'''),
 ('''        denom = self.grid.integrate(self.density * np.power(self.grid.points ** 2, 2.))
        exps = 3. * self.integral_dens / (2. * 4. * np.pi * denom)
        return np.array([self.integral_dens, exps])''', '''        moment = 4. * np.pi * self.grid.integrate(self.grid.points**4 * self.density)
        return np.array([self.integral_dens, 1.5 * self.integral_dens / moment])'''),
]})
E("g8", GREEDY, {"greedy": [
 ('''        if choice_function == "pick-one":
            self.next_param_func = get_next_choices
            self._numb_func_increase = 1  # How many basis functions were increased
        elif choice_function == "pick-two":
            self.next_param_func = get_two_next_choices
            self._numb_func_increase = 2
        elif choice_function == "pick-two-lose-one":
            self.next_param_func = pick_two_lose_one
            self._numb_func_increase = 1
        else:
            raise ValueError(f"Choice parameter {choice_function} was not recognized.")
''', '''        rules = {
            "pick-one": (get_next_choices, 1),
            "pick-two": (get_two_next_choices, 2),
            "pick-two-lose-one": (pick_two_lose_one, 1),
        }
        if choice_function not in rules:
            raise ValueError(f"Choice parameter {choice_function} was not recognized.")
        # rule and how many basis functions it adds
        self.next_param_func, self._numb_func_increase = rules[choice_function]
'''),
 ('''        if local:
            result = self.fitting_obj.run(
                coeffs, exps, opt_coeffs=True, opt_expons=True,
                maxiter=self.l_maxiter, c_threshold=self.l_threshold_coeff,
                e_threshold=self.l_threshold_exp, d_threshold=self.l_threshold_obj,
                disp=False
            )
            return np.hstack((result["coeffs"], result["exps"]))
        result = self.fitting_obj.run(
            coeffs, exps, opt_coeffs=True, opt_expons=True, maxiter=self.g_maxiter,
            c_threshold=self.g_threshold_coeff, e_threshold=self.g_threshold_exp,
            d_threshold=self.g_threshold_obj, disp=False
        )
        return''', '''        prefix = "l" if local else "g"
        options = {name[0] + "_threshold": getattr(self, f"{prefix}_threshold_{name}")
                   for name in ("coeff", "exp")}
        options["d_threshold"] = getattr(self, f"{prefix}_threshold_obj")
        options["maxiter"] = self.l_maxiter if local else self.g_maxiter
        result = self.fitting_obj.run(coeffs, exps, **options)
        return'''),
 ('''        if local:
            results = self.fitting_obj.run(
                coeffs, exps, tol=self.local_tol, maxiter=self.l_maxiter,
                with_constraint=self.with_constraint
            )
        else:
            results = self.fitting_obj.run(
                coeffs, exps, tol=self.global_tol, maxiter=self.g_maxiter,
                with_constraint=self.with_constraint
            )
''', '''        tol, maxiter = self.global_tol, self.g_maxiter
        if local:
            tol, maxiter = self.local_tol, self.l_maxiter
        results = self.fitting_obj.run(c0=coeffs, e0=exps, maxiter=maxiter, tol=tol,
                                       with_constraint=self.with_constraint)
'''),
]})
GRID = "C07 C08 C09 C10 C30 C32 C34"
E("r1", GRID, {"grid": [
 ('''        return np.trapz(y=arr, x=self.points)''', '''        steps = np.diff(self._points)
        means = (arr[1:] + arr[:-1]) / 2.0
        return np.sum(steps * means)'''),
 ('''        # Make an array to store coordinates of grid points
        self._points = np.zeros((np.prod(shape), dim))
        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2])
            )
        )
        coords = np.swapaxes(coords, 1, 2)
        coords = coords.reshape(3, -1)
        points = coords.T.dot(self._axes) + origin
''', '''        # coordinates of the points, the last index runs fastest
        coords = np.array(
            np.meshgrid(*[np.arange(number) for number in shape], indexing="ij")
        ).reshape(dim, -1)
        points = origin + np.dot(coords.T, self._axes)
'''),
 ('''        self._points = np.array(points)
''', '''        self._points = points
'''),
 ('''        weights = np.full(np.prod(shape), volume / numpnt)
        return weights''', '''        return np.ones(np.prod(shape)) * volume / numpnt'''),
 ('''        value = np.sum(self._weights * arr)
        return value''', '''        return np.dot(self._weights, arr)'''),
]})
E("r2", GRID, {"grid": [
 ('''            volume = np.dot(
                np.cross(shape[0] * self.axes[0], shape[1] * self.axes[1]),
                shape[2] * self.axes[2],
            )''', '''            cell = np.linalg.det(self.axes)
            volume = cell * np.prod(shape)'''),
 ('''        if mode.lower() == "core":
            points = 1. - np.cos(
                0.5 * np.pi * np.arange(
                    (1.0 - float(include_origin)), num_pts + int(not include_origin), dtype=dtype
                ) / num_pts
            )
            points /= 2 * self._atomic_number
        elif mode.lower() == "diffuse":
            points = 25. * (
                    1. - np.cos(0.5 * np.pi * np.arange(1.0, num_pts + 1, dtype=dtype) / num_pts)
            )
        else:
            raise ValueError(
                f"Arguments mode={mode.lower()} is not recognized!"
            )
        return points''', '''        mode = mode.lower()
        if mode not in ("core", "diffuse"):
            raise ValueError(
                f"Arguments mode={mode} is not recognized!"
            )
        if mode == "core":
            first = 0 if include_origin else 1
            scale = 1.0 / (2.0 * self._atomic_number)
        else:
            first, scale = 1, 25.0
        numbers = np.arange(num_pts, dtype=dtype) + first
        return scale * (1.0 - np.cos(np.pi * numbers / (2.0 * num_pts)))'''),
 ('''        points = np.linspace(start=min_radii, stop=max_radii, num=num_pts, dtype=dtype)
        super().__init__(points)''', '''        super().__init__(np.linspace(min_radii, max_radii, num_pts, dtype=dtype))'''),
 ('''            points = np.concatenate((core_points, diff_points, extra_pts))
        else:
            points = np.concatenate((core_points, diff_points))

        super().__init__(np.sort(points))''', '''            parts = [core_points, diff_points, np.array(list(extra_pts))]
        else:
            parts = [core_points, diff_points]
        points = np.hstack(parts)
        points.sort()
        super().__init__(points)'''),
]})
E("r3", GRID, {"grid": [
 ('''            itensor = np.zeros([3, 3])
            for i in range(atcorenums.shape[0]):
                xyz = atcoords[i] - com
                r = np.linalg.norm(xyz) ** 2.0
                tempitens = np.diag([r, r, r])
                tempitens -= np.outer(xyz.T, xyz)
                itensor += atcorenums[i] * tempitens
''', '''            centred = atcoords - com
            itensor = np.sum(atcorenums * np.sum(centred ** 2, axis=1)) * np.eye(3)
            itensor -= np.dot(centred.T * atcorenums, centred)
'''),
 ('''            new_coordinates = np.dot((atcoords - com), v)
''', '''            new_coordinates = np.dot(centred, v)
'''),
 ('''            axes = np.diag([spacing, spacing, spacing])
''', '''            axes = spacing * np.eye(3)
'''),
 ('''        shape = (max_coordinate - min_coordinate + 2.0 * extension) / spacing
        # Add one to include the upper-bound as well.
        shape = np.ceil(shape) + 1
        shape = np.array(shape, int)
''', '''        lengths = np.ptp(new_coordinates, axis=0) + 2.0 * extension
        # Add one to include the upper-bound as well.
        shape = np.ceil(lengths / spacing).astype(int) + 1
'''),
 ('''        center = 0.5 * (max_coordinate + min_coordinate)
''', '''        center = (max_coordinate + min_coordinate) / 2
'''),
 ('''            center = com + np.dot(v, center)
''', '''            center = v @ center + com
'''),
 ('''        origin = center - np.dot(0.5 * (shape - 1), axes)
''', '''        origin = center - 0.5 * np.sum((shape - 1)[:, None] * axes, axis=0)
'''),
]})
E("r4", GRID, {"grid": [
 ('''            for i in range(atcorenums.shape[0]):
                xyz = atcoords[i] - com
                r = np.linalg.norm(xyz) ** 2.0
                tempitens = np.diag([r, r, r])
                tempitens -= np.outer(xyz.T, xyz)
                itensor += atcorenums[i] * tempitens
''', '''            for charge, coord in zip(atcorenums, atcoords):
                itensor += charge * cls._point_tensor(coord - com)
'''),
 ('''    def _calculate_volume(self, shape):''', '''    @staticmethod
    def _point_tensor(xyz):
        """Inertia tensor of a unit mass at xyz."""
        return np.dot(xyz, xyz) * np.identity(3) - np.outer(xyz, xyz)

    def _calculate_volume(self, shape):'''),
 ('''        totz = np.sum(atcorenums)
        com = np.dot(atcorenums, atcoords) / totz
''', '''        com = np.average(atcoords, axis=0, weights=atcorenums)
'''),
 ('''        max_coordinate = np.amax(new_coordinates, axis=0)
        min_coordinate = np.amin(new_coordinates, axis=0)
''', '''        max_coordinate = new_coordinates.max(axis=0)
        min_coordinate = new_coordinates.min(axis=0)
'''),
]})
DENS = "C23 C24 C30 C32 C34"
E("d1", DENS, {"density": [
 ('''        norm = np.power(2. * exponent, number) * np.sqrt((2. * exponent) / factorial(2. * number))
        pref = np.power(points, number - 1).T
        # compute slater orbitals
        slater = norm.T * pref * np.exp(-exponent * points).T
        return slater''', '''        twice = 2. * exponent
        norm = twice ** (number + 0.5) / np.sqrt(factorial(2 * number))
        return (norm * points ** (number - 1) * np.exp(-exponent * points)).T'''),
 ('''        factor = self.phi_matrix(points) * self.phi_matrix(points, deriv=True)
        derivative = np.dot(2. * factor, self.orbitals_occupation).ravel() / (4 * np.pi)
        return derivative''', '''        phi, dphi = self.phi_matrix(points), self.phi_matrix(points, deriv=True)
        return np.sum(phi * dphi * self.orbitals_occupation.T, axis=1) / (2.0 * np.pi)'''),
]})
E("d2", DENS, {"density": [
 ('''            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix''', '''            phi_matrix[:, index] = slater @ self.orbitals_coeff[orbital][:, 0]
        return phi_matrix'''),
 ('''        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
        elif mode == "core":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
        # compute density
        dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
        return dens''', '''        if mode != "total":
            valence = np.exp(-(self.orbitals_energy.max() - self.orbitals_energy)**2)
            orb_occs = orb_occs * (valence if mode == "valence" else 1. - valence)
        # compute density
        dens = np.zeros(len(points))
        for phi, occupation in zip(self.phi_matrix(points).T, orb_occs.ravel()):
            dens += occupation * phi**2
        return dens / (4 * np.pi)'''),
]})
E("d3", DENS, {"density": [
 ('''        with np.errstate(divide='ignore'):
            # derivative
            deriv_pref = (number.T - 1.) / np.reshape(points, (points.shape[0], 1)) - exponent.T
            deriv_pref[np.abs(points) < 1e-10, :] = 0.0
        deriv = deriv_pref * slater
        return deriv''', '''        origin = np.abs(points) < 1e-10
        radii = np.where(origin, 1.0, points)[:, np.newaxis]
        deriv = slater * ((number.T - 1.) / radii - exponent.T)
        deriv[origin] = 0.0
        return deriv'''),
 ('''            phi_matrix[:, index] = np.ravel(np.dot(deriv_radial, self.orbitals_coeff[orbital])**2.0)

            # Calculate del^2 of spherical component
            slater = SlaterAtoms.radial_slater_orbital(exps, numbers, points)
            with np.errstate(divide='ignore'):
                gradient_sph = (
                    angular[orbital[1]] *
                    np.ravel(np.dot(slater, self.orbitals_coeff[orbital]))**2.0 /
                    points**2.0
                )
                gradient_sph[np.abs(points) < 1e-10] = 0.0
            phi_matrix[:, index] += gradient_sph
''', '''            coeffs = self.orbitals_coeff[orbital]
            phi_matrix[:, index] = np.ravel(np.dot(deriv_radial, coeffs)) ** 2
            # Calculate del^2 of spherical component
            slater = self.radial_slater_orbital(exps, numbers, points)
            away = np.abs(points) >= 1e-10
            values = np.dot(slater, coeffs).ravel()[away]
            phi_matrix[away, index] += angular[orbital[1]] * (values / points[away]) ** 2
'''),
]})
E("d4", DENS + " C25", {"density": [
 ('''        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            exps, number = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            if deriv:
                slater = self.derivative_radial_slater_type_orbital(exps, number, points)
            else:
                slater = self.radial_slater_orbital(exps, number, points)
            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix''', '''        function = self.derivative_radial_slater_type_orbital if deriv else self.radial_slater_orbital
        # the basis functions are shared by all orbitals of one type
        basis = {}
        columns = []
        for orbital in self.orbitals:
            shell = orbital[1]
            if shell not in basis:
                basis[shell] = function(self.orbitals_exp[shell], self.basis_numbers[shell], points)
            columns.append(np.dot(basis[shell], self.orbitals_coeff[orbital]))
        return np.hstack(columns)'''),
 ('''        self._energy = data["energy"]
        self._potential_energy = data["potential_energy"]
        self._kinetic_energy = data["kinetic_energy"]
        self._configuration = data["configuration"]
        self._orbitals = data["orbitals"]
        self._orbitals_occupation = data["orbitals_occupation"]
        self._orbitals_basis = data["orbitals_basis"]
        self._basis_numbers = data["basis_numbers"]
        self._orbitals_exp = data["orbitals_exp"]
        self._orbitals_coeff = data["orbitals_coeff"]
        self._orbitals_energy = data["orbitals_energy"]
        self._orbitals_cusp = data["orbitals_cusp"]
''', '''        for name, value in data.items():
            setattr(self, "_" + name, value)
'''),
]})
E("s1", "C25 C32", {"_slater": [
 ('''        electron_config_list = configuration

        shells = ["K", "L", "M", "N"]

        out = {}
        orbitals = [str(x) + "S" for x in range(1, 8)] + [str(x) + "P" for x in range(2, 8)] + \\
                   [str(x) + "D" for x in range(3, 8)] + [str(x) + "F" for x in range(4, 8)]
        for orb in orbitals:
            # Initialize all atomic orbitals to zero electrons
            out[orb] = 0
''', '''        electron_config_list = configuration
        shells = ["K", "L", "M", "N"]
        orbitals = [f"{n}{shell}" for lowest, shell in enumerate("SPDF", start=1)
                    for n in range(lowest, 8)]
        # Initialize all atomic orbitals to zero electrons
        out = dict.fromkeys(orbitals, 0)
'''),
 ('''                if orbital[1] == "D" or orbital[1] == "F":
                    num_electrons = re.search(orbital + r"\\((.*?)\\)", electron_config_list).group(1)
                    out[orbital] = int(num_electrons)
                else:
                    out[orbital] = int(electron_config_list[index + 3: index + 4])
''', '''                start = electron_config_list.index("(", index) + 1
                stop = electron_config_list.index(")", start)
                out[orbital] = int(electron_config_list[start:stop])
'''),
 ('''        if t_orbital[1] == "S":
            return int(t_orbital[0]) + 1
        elif t_orbital[1] == "P":
            return int(t_orbital[0])
        elif t_orbital[1] == "D":
            return int(t_orbital[0]) - 1
        elif t_orbital[1] == "F":
            return int(t_orbital[0]) - 2
        else:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
''', '''        shift = {"S": 1, "P": 0, "D": -1, "F": -2}
        if t_orbital[1] not in shift:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
        return int(t_orbital[0]) + shift[t_orbital[1]]
'''),
 ('''                    for x in list_of_orbitals:
                        orbitals_coeff[x] += [float(list_words[_get_column(x)])]
                    line = f.readline()
''', '''                    for x in list_of_orbitals:
                        orbitals_coeff[x].append(float(list_words[_get_column(x)]))
                    line = f.readline()
'''),
]})
E("s2", "C25 C32", {"_slater": [
 ('''                if x == "K":
                    out["1S"] = 2
                elif x == "L":
                    out["2S"] = 2
                    out["2P"] = 6
                elif x == "M":
                    out["3S"] = 2
                    out["3P"] = 6
                    out["3D"] = 10
                elif x == "N":
                    out["4S"] = 2
                    out["4P"] = 6
                    out["4D"] = 10
                    out["4F"] = 14
''', '''                number = shells.index(x) + 1
                for angular in range(number):
                    out[str(number) + "SPDF"[angular]] = 2 * (2 * angular + 1)
'''),
 ('''        true_configuration = ""
        if "[XE]" in configuration:
            true_configuration += "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
            true_configuration += configuration.split("[XE]")[1]
        elif "[RN]" in configuration:
            # Add Xenon
            true_configuration += "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
            # Add Rn
            true_configuration += "4F(14)6S(2)5D(10)6P(6)"
            # Add rest
            true_configuration += configuration.split("[RN]")[1]
        else:
            raise ValueError("Heavy element is not the right format for parsing.")
        return true_configuration
''', '''        xenon = "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
        radon = xenon + "4F(14)6S(2)5D(10)6P(6)"
        for name, core in (("[XE]", xenon), ("[RN]", radon)):
            if name in configuration:
                return core + configuration.partition(name)[2]
        raise ValueError("Heavy element is not the right format for parsing.")
'''),
 ('''        while len(next_line.strip()) == 0:
            next_line = f.readline()
''', '''        while not next_line.strip():
            next_line = f.readline()
'''),
 ('''            'orbitals_energy': np.array(orbitals_energy)[:, None],
            'orbitals_cusp': np.array(orbitals_cusp)[:, None],
''', '''            'orbitals_energy': np.array(orbitals_energy).reshape(-1, 1),
            'orbitals_cusp': np.reshape(orbitals_cusp, (len(orbitals_cusp), 1)),
'''),
 ('''            'orbitals_occupation': np.array([_get_number_of_electrons_per_orbital(configuration)[k]
                                             for k in orbitals])[:, None],
''', '''            'orbitals_occupation': occupation[:, None],
'''),
 ('''    data = {'configuration': configuration,
''', '''    numbers = _get_number_of_electrons_per_orbital(configuration)
    occupation = np.array([numbers[k] for k in orbitals])
    data = {'configuration': configuration,
'''),
]})
E("u1", "C26", {"parse_ugbs": [
 ('''    path_to_function = os.path.abspath(inspect.getfile(get_ugbs_exponents))
    path_to_function = path_to_function[:-13]  # Remove parse_ugbs.py <- 13 characters
    file_path = path_to_function + r"data/ygbs"
''', '''    folder = os.path.dirname(os.path.abspath(inspect.getfile(get_ugbs_exponents)))
    file_path = os.path.join(folder, "data", "ygbs")
'''),
 ('''        for line in f:
            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
''', '''        lines = f.readlines()
    name = element.lower()
    for number, line in enumerate(lines):
        words = line.split()
        if words and words[0].lower() == name:
            output[words[1]].append(float(lines[number + 1].split()[0]))
'''),
]})
E("u2", "C26", {"parse_ugbs": [
 ('''        for line in f:
            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
''', '''        line = f.readline()
        while line:
            split_words = line.split()
            if split_words[:1] and split_words[0].upper() == element.upper():
                exponent, _ = f.readline().split()
                shell = split_words[1]
                output[shell] += [float(exponent)]
            line = f.readline()
'''),
]})
# ---------------------------------------------------------------- what is displayed
E("p1", "C33 C13 C17", {"fit": [
 ('''            print("-" * (10 + 12 + 15 + 15 + 15 + 15 + 15 + 15 + 15 + 12))
            # Format is {identifier:width}, ^ means center it, | means put a bar in it
            template_header = (
                "|{0:^10}|{1:^12}|{2:^15}|{3:^15}|{4:^15}|{5:^16}|{6:^15}|{7:^15}|{8:^15}|"
            )
            # Print the headers
            print(template_header.format(
                "Iteration", "Integration", "L1", "L Infinity", "Least-squares",
                "Kullback-Leibler", "Change Coeffs", "Change Exps", "Change Objective")
            )
            print("-" * (10 + 12 + 15 + 15 + 15 + 15 + 15 + 15 + 15 + 12))
''', '''            rule = "-" * 139
            labels = ["Iteration", "Integration", "L1", "L Infinity", "Least-squares",
                      "Kullback-Leibler", "Change Coeffs", "Change Exps", "Change Objective"]
            widths = [10, 12, 15, 15, 15, 16, 15, 15, 15]
            header = "|" + "|".join(f"{label:^{width}}" for label, width in zip(labels, widths)) + "|"
            print(rule, header, rule, sep="\\n")
'''),
 ('''                def print_results(xk):
                    if opt_coeffs and opt_expons:
                        performance = self.goodness_of_fit(xk[:len(c0)], xk[len(c0):])
                    elif opt_coeffs:
                        performance = self.goodness_of_fit(xk, e0)
                    elif opt_expons:
                        performance = self.goodness_of_fit(c0, xk)
                    print(template_iters.format(*performance))

                callback = print_results
''', '''                def callback(current):
                    nbasis = self.model.nbasis
                    first = current[:nbasis] if opt_coeffs else c0
                    second = current[-nbasis:] if opt_expons else e0
                    inte, one, top, square, kull = self.goodness_of_fit(first, second)
                    print(f"|{inte:^12f}|{one:^15e}|{top:^15f}|{square:^15e}|{kull:^16e}|")

'''),
 ('''                    print(template_iters.format(*performance))
                callback = print_results
''', '''                    line = template_iters.format(*performance)
                    print(line, end="\\n")
                callback = print_results
'''),
 ('''            print("-" * (10 + 12 + 15 + 15 + 15 + 15 + 15 + 15 + 15 + 12))
            print(f"Successful?: {success}")
            print(f"Time: {time:.2f} seconds")
            print(f"Coefficients {new_cs}")
            print(f"Exponents {new_es}")
''', '''            print("-" * 139)
            print("Successful?:", success)
            print("Time: %.2f seconds" % time)
            print("Coefficients", new_cs)
            print("Exponents", str(new_es))
'''),
]})
E("p2", "C33 C20", {"greedy": [
 ('''                print(template_iters.format(
                    numb_funcs, self.num_s, self.num_p, *self.err_arr[-1],
                    np.abs(best_gval - prev_gval)
                ))
''', '''                change = np.abs(prev_gval - best_gval)
                row = [self.num_s + self.num_p, self.num_s, self.num_p] + list(self.err_arr[-1])
                print(template_iters.format(*row, change))
'''),
 ('''            print(f"Successful?: {success}")
            print(f"Number of s-type: {self.num_s}")
            print(f"Number of p-type: {self.num_p}")
            print("Termination Information: " + exit_info)
            print(f"Objective Function: {obj_func}")
            print(f"Coefficients {coeffs}")
            print(f"Exponents {expons}")
''', '''            print("\\n".join([
                f"Successful?: {success}",
                f"Number of s-type: {self.num_s}",
                f"Number of p-type: {self.num_p}",
                f"Termination Information: {exit_info}",
                f"Objective Function: {obj_func}",
                "Coefficients {}".format(coeffs),
                "Exponents {}".format(expons),
            ]))
'''),
]})

E("z1", MODEL, {"model": [
 ('''        self._radii = np.ravel(radii)

''', '''        self._radii = np.ravel(radii)
        self._radii_squared = self._radii ** 2

'''),
 ('''        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])

        # compute linear''', '''        matrix = np.exp(-expons[None, :] * self._radii_squared[:, None])

        # compute linear'''),
 ('''        matrix = matrix * np.power(self.radii, 2)[:, None]

        if not self.normalized:''', '''        matrix = matrix * self._radii_squared[:, None]

        if not self.normalized:'''),
]})
E("z2", MODEL, {"model": [
 ('''        if self.np == 0:
            # only s-type Gaussian basis functions
            return self._eval_s(matrix, coeffs, expons, deriv)
        elif self.ns == 0:
            # only p-type Gaussian basis functions
            return self._eval_p(matrix, coeffs, expons, deriv)
        else:
            # both''', '''        if self.np == 0 or self.ns == 0:
            routine = self._eval_s if self.np == 0 else self._eval_p
            return routine(matrix, coeffs, expons, deriv)
        else:
            # both'''),
 ('''        total_g = np.zeros(len(self.points))
        if deriv:
            total_dg = np.zeros((len(self.points), 2 * self.nbasis))
''', '''        total_g = np.zeros(len(self.points))
        blocks_c, blocks_e = [], []
'''),
 ('''                dg_c = dg[:, :center.nbasis]
                dg_e = dg[:, center.nbasis:]
                # add contributions to the total array
                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
''', '''                d_coeffs, d_expons = np.split(dg, 2, axis=1)
                # add contributions to the total array
                total_g += g
                blocks_c.append(d_coeffs)
                blocks_e.append(d_expons)
'''),
 ('''        if deriv:
            return total_g, total_dg
        return total_g''', '''        return (total_g, np.hstack(blocks_c + blocks_e)) if deriv else total_g'''),
]})
E("z3", MEAS, {"measure": [
 ('''        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)
''', '''        ratio = np.ma.divide(density, np.ma.masked_where(model <= self.mask_value, model)).filled(1.0)
'''),
 ('''        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
''', '''        covered = model > self.mask_value
        ratio = np.zeros(density.shape)
        np.divide(density, model, out=ratio, where=covered)
'''),
]})
E("z4", FIT, {"fit": [
 ('''        self._density = density
        self._model = model
        self._measure = measure
        self._spherical = spherical
''', '''        self._density = density
        self._model = model
        self._measure = measure
        self._spherical = spherical
        # volume element of the integration
        self._volume = 4.0 * np.pi * np.power(self.grid.points, 2.0) if spherical else 1.0
'''),
 ('''        if self.spherical:
            return self.grid.integrate(integrand * 4.0 * np.pi * self.grid.points**2.0)
        return self.grid.integrate(integrand)''', '''        return self.grid.integrate(integrand * self._volume)'''),
]})
E("z5", FIT, {"fit": [
 ('''        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
            # update old''', '''        while niter < maxiter:
            parameters_moved = max_diff_expons > e_threshold or max_diff_coeffs > c_threshold
            if not (parameters_moved and diff_divergence > d_threshold):
                break
            # update old'''),
 ('''            if opt_coeffs and opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, True, True)
            elif opt_coeffs:
                new_cs, new_es = self._update_params(new_cs, new_es, True, False)
            elif opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, False, True)
            else:
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
''', '''            if not (opt_coeffs or opt_expons):
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
            new_cs, new_es = self._update_params(new_cs, new_es, bool(opt_coeffs), bool(opt_expons))
'''),
 ('''                diff_divergence = np.abs(performance[niter - 1][-1] - performance[niter - 2][-1])''',
  '''                diff_divergence = np.abs(fun[-1] - fun[-2])'''),
 ('''        # split optimized coeffs & expons
        if opt_coeffs and opt_expons:
            coeffs, expons = res["x"][:self.model.nbasis], res["x"][self.model.nbasis:]
        elif opt_coeffs:
            coeffs, expons = res["x"], e0
        else:
            coeffs, expons = c0, res["x"]
''', '''        # split optimized coeffs & expons
        optimum = res.x
        if opt_coeffs and opt_expons:
            coeffs, expons = np.split(optimum, 2)
        else:
            coeffs, expons = (optimum, e0) if opt_coeffs else (c0, optimum)
'''),
]})
E("z6", GREEDY, {"greedy": [
 ('''                best_local_value = self.eval_obj_function(local_param)
''', '''                best_local_value = cost_func
'''),
 ('''        b_vector = np.copy(true_dens)
        b_vector = np.ravel(b_vector)
        row_nnls_coefficients = nnls(cofactor_matrix, b_vector)
        return row_nnls_coefficients[0]''', '''        solution, _ = nnls(cofactor_matrix, np.array(true_dens).reshape(-1))
        return solution'''),
 ('''        p_min = min(
            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
        )
        return p_min[1]''', '''        best_cost, best = cost_func1, p1
        for cost, guess in ((cost_func2, p2), (cost_func3, p3)):
            if cost < best_cost:
                best_cost, best = cost, guess
        return best'''),
]})
E("z7", GRID, {"grid": [
 ('''        self._points = np.ravel(points)
''', '''        self._points = np.ravel(points)
        steps = np.diff(self._points)
        self._weights = 0.5 * (np.append(steps, 0.0) + np.insert(steps, 0, 0.0))
'''),
 ('''        return np.trapz(y=arr, x=self.points)''', '''        return np.dot(self._weights, arr)'''),
 ('''        value = np.sum(self._weights * arr)
''', '''        value = np.dot(arr, self._weights)
'''),
]})
E("z8", DENS, {"density": [
 ('''        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            exps, number = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            if deriv:
                slater = self.derivative_radial_slater_type_orbital(exps, number, points)
            else:
                slater = self.radial_slater_orbital(exps, number, points)
            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix''', '''        radial = self.derivative_radial_slater_type_orbital if deriv else self.radial_slater_orbital
        basis = {}
        columns = []
        for orbital in self.orbitals:
            shell = orbital[1]
            if shell not in basis:
                basis[shell] = radial(self.orbitals_exp[shell], self.basis_numbers[shell], points)
            columns.append(basis[shell] @ self.orbitals_coeff[orbital])
        return np.concatenate(columns, axis=1)'''),
 ('''        slater = norm.T * pref * np.exp(-exponent * points).T''', '''        slater = (norm * np.exp(-exponent * points)).T * pref'''),
]})
