"""C21: moving obstacles move rigidly."""
from hydraxmpm.utils import math_helpers as mh

from lib.pbt import part
from lib.gen import *
from lib.mpm import *
import checks.c20 as shapes
from lib.pbt import PARTS

for _name in ("shapes", "shapes32", "cloud", "sampled"):
    PARTS.pop(_name, None)

RULE = ("A case is an obstacle (any finite shape) with position, orientation, linear and angular velocity, a time step and a number of "
        "steps, and points. Non-trivial: it moves and turns.")
KINDS = [("box", 2), ("box", 3), ("sphere", 2), ("sphere", 3), ("torus", 3), ("star5", 2), ("capsule", 3), ("plane", 2), ("plane", 3), ("union", 2)]
NP = 6


@composite
def gen(draw):
    kind, dim = pick(draw, *share(KINDS))
    s = shapes.draw_shape(draw, kind, dim)
    c = s["scale"]
    w = np.array(arr(draw, (3,), -1, 1)) * lognum(draw, 0.01, 10.0, 16)
    still = pick(draw, "both", "both", "both", "spin", "slide")
    theta = lognum(draw, 1e-3, 0.3, 16)
    speed = np.abs(w[2]) if dim == 2 else np.sqrt(w @ w)
    dt = theta / speed if speed > 1e-6 else 0.1
    return dict(shape=s, dim=dim, com=(c * np.array(arr(draw, (dim,), -2, 2))).tolist(), vel=(c / dt * 0.1 * np.array(arr(draw, (dim,), -1, 1)) * (still != "spin")).tolist(),
                omega=(w * (still != "slide")).tolist(), angle=num(draw, -4, 4) if dim == 2 else arr(draw, (4,), -1, 1), dt=float(dt), steps=integer(draw, 1, 12),
                points=(1.5 * np.array(arr(draw, (NP, dim), -1, 1))).tolist())


@eqx.filter_jit
def kin(logic, state, dt):
    return logic.update_kinematics(state, dt)


@eqx.filter_jit
def probe(logic, state, pos, dt):
    return logic.get_velocity_stack(state, pos, dt), jax.vmap(lambda p: logic.transform_to_local(state, p))(pos), logic.get_signed_distance_stack(state, pos)


def exact(w, t):
    th = np.sqrt(w @ w) * t
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]) * t
    return ref.expm(K)


@part(gen, quick=600, thorough=20000, shards=5)
def motion(case, rec):
    """position, orientation, reported velocity and frame changes along several steps against exact rigid motion"""
    s, dim, dt, n = case["shape"], case["dim"], case["dt"], case["steps"]
    c = s["scale"]
    com, v, w = np.array(case["com"]), np.array(case["vel"]), np.array(case["omega"])
    R0 = shapes.rotation(case, dim)
    if dim == 2:
        w = np.array([0, 0, w[2]])
    with quiet():
        logic = shapes.build(s)
        st = logic.create_state(A(com), velocity=A(v), angular_velocity=A(w[2]) if dim == 2 else A(w),
                                rotation=A(case["angle"]) if dim == 2 else A(shapes.quaternion(case["angle"])))
    logic, st = arrayify(logic), arrayify(st)
    local = np.array(case["points"]) * c
    rel = local @ R0.T
    theta = np.sqrt(w @ w) * dt
    for k in range(n):
        t = k * dt
        R = (exact(w, t)[:dim, :dim] @ R0)
        x = com + v * t + local @ R.T
        vs, loc, d = (N(q) for q in probe(logic, st, A(x), dt))
        err = 1e-9 + 1.05 * k * theta ** 3 / 12
        r3 = np.pad(local @ R.T, ((0, 0), (0, 3 - dim)))
        want = v + np.cross(w, r3)[:, :dim]
        rec.close(vs, want, rtol=1e-8, scale=np.abs(v).max() + np.abs(w).max() * c * 3 + 1e-12, atol=np.abs(w).max() * np.abs(com).max() * 1e-9, msg="velocity of the obstacle")
        # the point fixed in the obstacle keeps its local place and distance
        rec.close(loc, local, rtol=err + 1e-8, scale=3 * c + np.abs(com).max() * 1e-3, msg="local position")
        rec.close(np.sqrt((loc ** 2).sum(-1)), np.sqrt((local ** 2).sum(-1)), rtol=1e-8, scale=3 * c + np.abs(com).max(), msg="length in the local frame")
        rec.close(d, shapes.local(s, local), rtol=err + 1e-8, scale=4 * c + np.abs(com).max() * 1e-3, atol=1e-5, msg="distance from the moving obstacle")
        # the reported velocity is how the obstacle actually moves, to first order in the step
        st2 = kin(logic, st, A(dt))
        x2 = x + vs * dt
        d2 = N(probe(logic, st2, A(x2), dt)[2])
        rec.close(d2, d, rtol=0, atol=1e-5 + 1e-8 * (c + np.abs(com).max()) + 1.1 * theta ** 2 * 2 * c, msg="surface moves with its velocity")
        rec.close(N(st2.center_of_mass), com + v * (t + dt), rtol=1e-11, scale=np.abs(com).max() + np.abs(v).max() * n * dt + 1e-30, msg="position")
        if dim == 2:
            rec.close(st2.rotation, case["angle"] + w[2] * (t + dt), rtol=1e-11, scale=5 + abs(w[2]) * n * dt, msg="angle")
        else:
            q = N(st2.rotation)
            rec.close(q @ q, 1.0, rtol=1e-9, msg="length of the quaternion")
            Rn = rotq(q)
            rec.close(Rn, exact(w, t + dt) @ R0, rtol=0, atol=1e-8 + 1.05 * (k + 1) * theta ** 3 / 12, msg="orientation")
        rec.same(st2.velocity, st.velocity, "velocity changed")
        rec.same(st2.angular_velocity, st.angular_velocity, "angular velocity changed")
        st = st2
    rec.nt(np.abs(v).max() > 0 and theta > 0)
    rec.label(s["kind"] + str(dim), "turning" if theta > 0 else "sliding", "coarse" if theta > 0.1 else "fine")


def rotq(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


@composite
def gen_rot(draw):
    return dict(q=arr(draw, (4,), -1, 1), v=(np.array(arr(draw, (3,), -1, 1)) * lognum(draw, 1e-2, 1e3, 12)).tolist(), a=num(draw, -50, 50), v2=arr(draw, (2,), -5, 5))


@part(gen_rot, quick=600, thorough=20000, shards=1)
def rotations(case, rec):
    """quaternion and plane rotations: the matrix, inverse, length"""
    q, v, a, v2 = shapes.quaternion(case["q"]), np.array(case["v"]), case["a"], np.array(case["v2"])
    r, b, i, e, u, w, b2 = (N(x) for x in rot_eval(A(q), A(v), A(a), A(v2)))
    sc = np.abs(v).max() + 1e-30
    rec.close(r, rotq(q) @ v, rtol=1e-10, scale=sc, msg="quaternion rotation")
    rec.close(b, v, rtol=1e-10, scale=sc, msg="rotation back")
    rec.close(i, q * np.array([1, -1, -1, -1]), rtol=1e-12, msg="inverse")
    s2 = np.abs(v2).max() + 1e-30
    rec.close(u, rot2(a) @ v2, rtol=1e-10, scale=s2, msg="plane rotation")
    rec.close(w, rot2(-a) @ v2, rtol=1e-10, scale=s2, msg="inverse plane rotation")
    rec.close(b2, v2, rtol=1e-10, scale=s2, msg="plane rotation back")
    rec.nt(np.abs(v).max() > 0)


@eqx.filter_jit
def rot_eval(q, v, a, v2):
    r = mh.quaternion_rotate(q, v)
    return r, mh.quaternion_rotate(mh.quaternion_inv(q), r), mh.quaternion_inv(q), q, mh.rotation_2d(a, v2), mh.rotation_2d_inv(a, v2), mh.rotation_2d_inv(a, mh.rotation_2d(a, v2))


SOLVER = [dict(scheme=s, dim=d) for s in ("usl", "usl_aflip") for d in (2, 3)]


@composite
def gen_solver(draw):
    c = pick(draw, *share(SOLVER))
    dim = c["dim"]
    return dict(c, com=arr(draw, (dim,), -1, 1), vel=arr(draw, (dim,), -1, 1), omega=arr(draw, (3,), -5, 5), dt=pick(draw, 1e-3, 1e-2), steps=integer(draw, 1, 5))


@part(gen_solver, quick=40, thorough=400, shards=4)
def in_solver(case, rec):
    """every obstacle advances once per solver step, whether or not it collides with anything; the container stays"""
    dim, dt = case["dim"], case["dt"]
    with quiet():
        b = hdx.SimBuilder()
        b.add_grid(origin=(0.0,) * dim, end=(1.0,) * dim, cell_size=0.25)
        b.add_material_points(position_stack=A([[0.5] * dim, [0.6] * dim]), velocity_stack=A(np.zeros((2, dim))), density_stack=A([1000.0, 1000.0]), cell_size=0.25, ppc=1)
        b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e3, nu=0.3))
        b.couple(shapefunction="linear")
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(0.1), center_of_mass=A(case["com"]), velocity=A(case["vel"]), angular_velocity=A(case["omega"]) if dim == 3 else A(case["omega"][2]))
        b.add_sdf_object(sdf_logic=hdx.DomainSDF(A([0.1] * dim), A([0.9] * dim)))
        b.add_sdf_object(sdf_logic=hdx.BoxSDF(A([0.1] * dim)), center_of_mass=A(case["vel"]), velocity=A(case["com"]), angular_velocity=A(case["omega"][::-1]) if dim == 3 else A(case["omega"][0]))
        b.add_sdf_collider(sdf_idx=0)
        b.set_solver(scheme=case["scheme"])
        solver, state = b.build(dt=dt)
    s = state
    for _ in range(case["steps"]):
        s = step(solver, s)
    T = case["steps"] * dt
    for i, (x0, v0, w0) in enumerate([(case["com"], case["vel"], case["omega"]), (None, None, None), (case["vel"], case["com"], case["omega"][::-1])]):
        o = s.world.sdfs[i]
        if x0 is None:
            for k in ("center_of_mass", "rotation", "velocity", "angular_velocity"):
                rec.close(N(getattr(o, k)), N(getattr(state.world.sdfs[i], k)), rtol=1e-12, atol=1e-12, msg="container " + k)
            continue
        rec.close(o.center_of_mass, np.array(x0) + np.array(v0) * T, rtol=1e-10, scale=2.0, msg="position after the run")
        if dim == 2:
            rec.close(o.rotation, w0[2] * T, rtol=1e-10, scale=1.0, msg="angle after the run")
        else:
            rec.close(rotq(N(o.rotation)), exact(np.array(w0), T), rtol=0, atol=1e-8 + 1.05 * case["steps"] * (np.sqrt(np.dot(w0, w0)) * dt) ** 3 / 12, msg="orientation after the run")
    rec.nt(np.abs(case["vel"]).max() > 0)
    rec.label(case["scheme"], f"{dim}D")
