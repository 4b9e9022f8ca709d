PBT = 'property-based testing (Hypothesis generators, shrinking to a replay file) '
def T(i, how, note): TECH[i] = (PBT + how, note)
T('C01', 'of random constructor/combinator programs against an analytic arc-length reference model', 'Generated search; paths of up to 7 pieces; smooth functions within spline accuracy.')
T('C02', 'of random rigid motions on all kinds of objects against 4x4 matrix motion of sampled points', 'Generated search over motions, origins and objects.')
T('C03', 'of random surface constructors and boundary extractions against independently written point formulas and edge comparison', 'Generated search; edges compared at sampled points.')
T('C04', 'of mesh-operation histories against a model of elements as corner coordinates per group (model-based)', 'Histories of up to about ten operations.')
T('C05', 'of random paths/surfaces and mesh sizes against implicit shape equations, exact coverage moments and size bounds', 'Generated search; coverage via exact area/moment identities.')
T('C06', 'of closed bodies with shuffled, randomly flipped elements and histories of orientation requests against a model of outward normals', 'Bodies with known outward normals; histories of up to six operations.')
T('C07', 'of random meshes through conversion and file formats (round trip)', 'Formats of meshio that can hold the elements.')
T('C08', 'of random electrode geometries against exact solutions, the Faraday-cage and harmonic-function relations', 'Tolerances follow discretisation error; refinement compared.')
T('C09', 'of random multi-electrode/coil problems against the superposition identity', 'Generated search over coefficients and groups.')
T('C10', 'of metamorphic transformations of random solved problems', 'Generated search; transformed solutions compared.')
T('C11', 'of problem x thread-count pairs (differential against one thread)', 'Thread counts 1..more than elements.')
T('C12', 'of random fields and points against numerical gradients of the potential and rotations', 'Accuracy limited by finite differences.')
T('C13', 'of random fields against Gauss flux, mean-value and far-field identities', 'Quadrature accuracy.')
T('C14', 'of random bodies and boundaries against interface conditions and exact solutions', 'Discretisation tolerances.')
T('C15', 'of random coil cross sections against independent Biot-Savart and Ampere integrals', 'Quadrature accuracy.')
T('C16', 'of random solved fields against their axial interpolation', 'Interpolation tolerances.')
T('C17', 'of random field expressions against pointwise evaluation (algebraic model)', 'Generated expression trees.')
T('C18', 'of random tracing problems against scipy DOP853 and conservation laws', 'Tolerances proportional to the requested one.')
T('C19', 'of random boxes and points (inside unchanged, outside zero)', 'Points exactly on a face are not judged.')
T('C20', 'of random energies and directions against closed formulas', 'Generated search.')
T('C21', 'of random trajectories and planes against exact intersections', 'Trajectories with one crossing.')
T('C22', 'of excitation histories against a dictionary model, including invalid requests', 'Model-based histories.')
T('C23', 'of numerical kernels against scipy/adaptive quadrature references', 'Reference accuracy.')
T('C24', 'of library calls under every verbosity with captured output', 'stdout/stderr captured at file-descriptor level.')
T('C25', 'of call sequences on an ASan/UBSan build of the backend (fuzzing)', 'Memory errors the sanitizers can see.')
T('C26', 'of random 3D charges against direct potentials', 'Series truncation tolerance.')
T('C27', 'of equivalent input representations (differential) and input snapshots', 'Generated search over calls and representations.')
T('C28', 'of interleaved histories against isolated runs', 'Histories over several problems.')
T('C29', 'of plotting calls against the numeric data held by the graphical objects', 'Objects inspected off-screen; no rendering.')
T('C31', 'of calls with arguments passed by name, by position or left out (differential against the fully spelled-out call)', 'Documented names, order and defaults are tabulated in the check.')
T('C30', 'of whole solve-interpolate-trace chains against independent integration in closed-form fields', 'Tolerances follow discretisation error.')
