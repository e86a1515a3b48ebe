VN = ('Value numbering (abstract evaluation with loop summaries) of the source gives '
      'each stored value as a polynomial in shape-function factors; compared by polynomial identity '
      'with the work expression of the theory. ')
ASSUME = ('Trusted: the Cython parser, the loop/accumulator summaries of vp/flow.py, real arithmetic in '
          'place of floating point (literals with 12+ digits are matched to rationals), and the shape '
          'function evaluators and integrals meaning what C01-C03 establish.')
PY = ('Abstract evaluation (value numbering with branch guards and loop summaries) of the Python methods; '
      'the arguments, guards and loop structure of the calls that matter are compared with what the '
      'property requires. Trusted: the Python parser, the summaries of vp/flow.py, numpy reshape/meshgrid '
      'semantics. Constructs the evaluation cannot represent are reported as undecided, not as violations.')
TECH, NOTE = {}, {}
for i in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18'):
    TECH[i] = 'dataflow value numbering of kernel stores + polynomial identity against the work expression'
    NOTE[i] = VN + ASSUME
for i in ('C10', 'C11'):
    TECH[i] = 'dataflow value numbering of field kernels and result methods + polynomial identity'
    NOTE[i] = VN + ASSUME + ' ' + PY
for i in ('C12', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C29', 'C30', 'C32', 'C33', 'C36'):
    TECH[i] = 'dataflow value numbering of the Python methods; argument, guard and loop obligations'
    NOTE[i] = PY
TAB = ('Constant propagation of every table index (and order) through the C++ source, real values kept as exact '
       'rational polynomials of the coordinate and edge flags; each coefficient compared with the defining '
       'mathematics in exact arithmetic (tolerance: 4e-14 relative, the tables carry 15 digits). The headers, extern '
       'blocks and Python wrappers are bound to the definitions. Trusted: vp/cfront.py (C subset parser and '
       'propagation), the platform pow/+/* being accurate to rounding.')
for i in ('C01', 'C02', 'C03'):
    TECH[i] = 'constant propagation over the C++ table source in an exact polynomial domain'
    NOTE[i] = TAB
TECH['C19'] = 'interval and polynomial bound analysis of subscripts, allocation typestate, triplet-slot accounting, prange effect analysis'
NOTE['C19'] = ('Every subscript of an allocation, memoryview or pointer argument in the native code is bounded by '
     'range propagation and compared with the extent (allocation expression, declared array, documented caller '
     'extent); each malloc has one free on every path and no use after it; the COO slot counter is advanced once '
     'per written triplet and its maximum compared with the allocated length; parallel loops write only '
     'iteration-owned elements; Python callers hand over arrays of the extents the callee writes. Trusted: the '
     'Cython parser, vp/flow.py ranges, int arithmetic without overflow, the sizes of c being what check_c '
     'and the docstrings demand.')
TECH['C28'] = 'name and call resolution over the whole package; reaching definitions over consistent branch outcomes; slot and late-attribute typestate'
NOTE['C28'] = ('Every name, module attribute (package and installed libraries), attribute of an instance whose class '
     'the type propagation knows, slot store and call signature is resolved over all branches; locals need a '
     'definition on each path whose branch outcomes agree; callables given to the solver package must bind to the '
     'calls found in its source. Trusted: loops run at least one full iteration, attributes of objects of unknown '
     'type are not judged, the parameter naming table of vp/names.py.')
TECH['C31'] = 'abstract evaluation of the registries, query of every registry lookup, interface comparison of the kernel modules'
NOTE['C31'] = ('The registry modules are evaluated abstractly to their final content; every lookup of the package is '
     'traced to (registry, entry, key, function) and must exist; file identity ties each model to the kernel files '
     'that C04-C09 decide. Trusted: the lookup tracing through local names.')
TECH['C36'] = 'value numbering of the plotting functions for each accepted component against the value-numbered result methods; state left behind; option-use query'
NOTE['C36'] = ('Each plotting function is analysed once per component, deformed or not, with and without results held '
     'before; what reaches contourf (field, coordinates, levels) must be value-identical to what the result method '
     'gives for the arguments of the plot, and the fields and mesh left on the object must be those of before (or '
     'all new). Trusted: matplotlib, the result methods (C10-C12, C25, C32), styling options are not judged, '
     'components gyz, gxz, Qy, Qx that the classical models never compute.')
NOT_APPLICABLE = {
 'C34': 'Convergence of the Ritz approximation from above quantifies over runtime spectra; no static argument over the source bounds eigenvalues. The ingredients (shape functions, integrals, kernels) are decided by C01-C09.',
 'C35': 'Existence and convergence of a nonlinear equilibrium path depends on the numbers met at run time and on the solver; the consistency of its ingredients is decided by C05-C07.',
}
