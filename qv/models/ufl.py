"""Models of the UFL classes the package uses (interpreted abstractly, never imported).
Behaviour as in UFL 2025.2."""


class Integral:
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data, extra_domain_integral_type_map=None):
        self._integrand = integrand
        self._integral_type = integral_type
        self._ufl_domain = domain
        self._subdomain_id = subdomain_id
        self._metadata = metadata
        self._subdomain_data = subdomain_data

    def integrand(self):
        return self._integrand

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._ufl_domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None, extra_domain_integral_type_map=None):
        if integrand is None:
            integrand = self._integrand
        if integral_type is None:
            integral_type = self._integral_type
        if domain is None:
            domain = self._ufl_domain
        if subdomain_id is None:
            subdomain_id = self._subdomain_id
        if metadata is None:
            metadata = self._metadata
        if subdomain_data is None:
            subdomain_data = self._subdomain_data
        return Integral(integrand, integral_type, domain, subdomain_id, metadata, subdomain_data)


class Form:
    def __init__(self, integrals):
        ids = []
        for t in ("cell", "exterior_facet", "interior_facet"):
            num = []
            other = []
            for itg in integrals:
                if itg.integral_type() == t:
                    sid = itg.subdomain_id()
                    if isinstance(sid, int):
                        num.append(itg)
                    else:
                        other.append(itg)
            # by number, in the order they were given
            for n in sorted(set([itg.subdomain_id() for itg in num])):
                ids.extend([itg for itg in num if itg.subdomain_id() == n])
            ids.extend(other)
        self._integrals = tuple(ids)
        self._subdomain_data = None
        self._signature = None

    def integrals(self):
        return self._integrals

    def integrals_by_type(self, integral_type):
        return tuple([i for i in self._integrals if i.integral_type() == integral_type])

    def empty(self):
        return len(self._integrals) == 0

    def subdomain_data(self):
        if self._subdomain_data is None:
            r = {}
            for itg in self._integrals:
                d = itg.ufl_domain()
                t = itg.integral_type()
                if d not in r:
                    r[d] = {}
                if t not in r[d]:
                    r[d][t] = []
                r[d][t].append(itg.subdomain_data())
            self._subdomain_data = r
        return self._subdomain_data

    def ufl_domain(self):
        return self._integrals[0].ufl_domain()

    def ufl_domains(self):
        return (self._integrals[0].ufl_domain(),)

    def arguments(self):
        return self._integrals[0].integrand().arguments

    def coefficients(self):
        return self._integrals[0].integrand().coefficients

    def constants(self):
        return self._integrals[0].integrand().constants


class Measure:
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None, intersect_measures=None):
        self._integral_type = integral_type
        self._domain = domain
        self._subdomain_id = subdomain_id
        self._metadata = metadata or {}
        self._subdomain_data = subdomain_data

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        if subdomain_id is None:
            subdomain_id = self.subdomain_id()
        if domain is None:
            domain = self.ufl_domain()
        if metadata is None:
            metadata = self.metadata()
        if subdomain_data is None:
            subdomain_data = self.subdomain_data()
        return Measure(self.integral_type() if integral_type is None else integral_type, domain=domain, subdomain_id=subdomain_id, metadata=metadata, subdomain_data=subdomain_data)

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if (degree is not None) or (scheme is not None):
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata, subdomain_data=subdomain_data)

    def __rmul__(self, integrand):
        sid = self.subdomain_id()
        if isinstance(sid, tuple):
            r = []
            for d in sid:
                r.extend((integrand * self.reconstruct(subdomain_id=d)).integrals())
            return Form(r)
        return Form([Integral(integrand, self.integral_type(), self.ufl_domain(), sid, self.metadata(), self.subdomain_data())])


def _sym(name):
    return name


class Tensor:
    """scalar, vector or matrix valued expression, by components"""

    def __init__(self, shape, v, consts=()):
        self.ufl_shape = shape
        self.v = v
        self.consts = tuple(consts)
        self.arguments = ()
        self.coefficients = ()
        self.constants = self.consts

    def __mul__(self, o):
        if isinstance(o, Measure):
            return o.__rmul__(self)
        o = as_tensor(o)
        c = self.consts + o.consts
        a, b = self.ufl_shape, o.ufl_shape
        if a == ():
            return Tensor(b, [self.v[0] * x for x in o.v], c)
        if b == ():
            return Tensor(a, [o.v[0] * x for x in self.v], c)
        if len(a) == 2 and len(b) == 1:
            if a[1] != b[0]:
                raise ValueError("product of a matrix %s and a vector %s" % (a, b))
            return Tensor((a[0],), [sum([self.v[i * a[1] + k] * o.v[k] for k in range(a[1])]) for i in range(a[0])], c)
        if len(a) == 2 and len(b) == 2:
            if a[1] != b[0]:
                raise ValueError("product of matrices %s and %s" % (a, b))
            return Tensor((a[0], b[1]), [sum([self.v[i * a[1] + k] * o.v[k * b[1] + j] for k in range(a[1])]) for i in range(a[0]) for j in range(b[1])], c)
        raise ValueError("product of expressions of shapes %s and %s" % (a, b))

    def __rmul__(self, o):
        return as_tensor(o).__mul__(self)

    def __truediv__(self, o):
        o = as_tensor(o)
        if o.ufl_shape != ():
            raise ValueError("division by non-scalar")
        return Tensor(self.ufl_shape, [x / o.v[0] for x in self.v], self.consts + o.consts)

    def __add__(self, o):
        o = as_tensor(o)
        return Tensor(self.ufl_shape, [x + y for x, y in zip(self.v, o.v)], self.consts + o.consts)

    def __sub__(self, o):
        o = as_tensor(o)
        return Tensor(self.ufl_shape, [x - y for x, y in zip(self.v, o.v)], self.consts + o.consts)

    def __neg__(self):
        return Tensor(self.ufl_shape, [-x for x in self.v], self.consts)

    @property
    def T(self):
        return transpose(self)


class Constant(Tensor):
    def __init__(self, domain, c):
        self.dtype = c.dtype
        self.value = c
        self._ufl_domain = domain
        n = c.shape[0]
        super().__init__((n,), [_sym("N%d" % i) for i in range(n)], (self,))


def as_tensor(x):
    if isinstance(x, Tensor):
        return x
    return Tensor((), [x])


def transpose(a):
    r, c = a.ufl_shape
    return Tensor((c, r), [a.v[i * c + j] for j in range(c) for i in range(r)], a.consts)


def det(a):
    return Tensor((), [_det(a.v, a.ufl_shape[0])], a.consts)


def _det(v, n):
    if n == 1:
        return v[0]
    if n == 2:
        return v[0] * v[3] - v[1] * v[2]
    return v[0] * (v[4] * v[8] - v[5] * v[7]) - v[1] * (v[3] * v[8] - v[5] * v[6]) + v[2] * (v[3] * v[7] - v[4] * v[6])


def cofac(a):
    return inv(a) * det(a)


def inv(a):
    n, m = a.ufl_shape
    if n != m:
        raise ValueError("inverse of a matrix of shape %s" % (a.ufl_shape,))
    d = _det(a.v, n)
    v = a.v
    if n == 1:
        return Tensor((1, 1), [1 / v[0]], a.consts)
    if n == 2:
        r = [v[3], -v[1], -v[2], v[0]]
    else:
        r = []
        for i in range(3):
            for j in range(3):
                p = [k for k in range(3) if k != j]
                q = [k for k in range(3) if k != i]
                m2 = v[3 * p[0] + q[0]] * v[3 * p[1] + q[1]] - v[3 * p[0] + q[1]] * v[3 * p[1] + q[0]]
                r.append(m2 if (i + j) % 2 == 0 else -m2)
    return Tensor((n, n), [x / d for x in r], a.consts)


def inner(a, b):
    if a.ufl_shape != b.ufl_shape:
        raise ValueError("inner product of shapes")
    return Tensor((), [sum([x * y for x, y in zip(a.v, b.v)])], a.consts + b.consts)


def dot(a, b):
    if len(a.ufl_shape) == 1 and len(b.ufl_shape) == 1:
        return inner(a, b)
    return a * b


def sqrt(a):
    return Tensor((), [_sqrt(as_tensor(a).v[0])], as_tensor(a).consts)


def _sqrt(x):
    return x


def id_or_none(x):
    return None if x is None else id(x)


class CompiledForm:
    """dolfinx.fem.forms.Form"""

    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._code = code
        self._ufcx_form = ufcx_form
        self._cpp_object = form
        self._module = module
