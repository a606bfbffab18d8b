from common import *
from pymatgen.core.structure import Structure as PStructure
from pymatgen.core.lattice import Lattice as PLattice
from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import Lattice, PeriodicStructure, StructureBuilder

RULE = ("cells with any shape and periodic directions, structures of 0-9 atoms of 1-4 species (elements, ions) at general and "
        "special positions inside and outside the cell, in both directions and back")
COUNTS = {"lattice": 200, "builder": 150, "struct_state": 150, "to_pymatgen": 150, "there_and_back": 80}
EL = ["Na", "Cl", "Zr", "O", "Fe", "H"]
CONV = PymatgenStructureConverter()


def rpbc(r):
    return tuple(r.random() < .6 for _ in range(3)) if r.random() < .7 else (True,) * 3


def rcell(r):
    vecs, _ = rlattice_vecs(r, 3)
    return [tuple(3.0 * x for x in v) for v in vecs]


def ratoms(r, vecs, pbc, lo=1, hi=9, spread=True):
    """fractional positions pairwise more than 0.05 apart, off rounding ties and cell faces."""
    out = []
    for _ in range(r.randrange(lo, hi + 1)):
        if r.random() < .4:
            # faces of the cell only where the arithmetic is exact (known finding cell-boundary of C10)
            f = [r.choice([0.0 if np.count_nonzero(vecs) == 3 else .125, .5, .25, .75]) for _ in range(3)]
        else:
            f = [round(r.uniform(.02, .98), 4) for _ in range(3)]
        if spread and r.random() < .3:
            f = [x + r.choice([-1, 0, 1]) for x in f]
        p = cart(f, vecs)
        w = wrap(p, vecs, pbc)
        if not tie_free(w, 0.05) or not tie_free(p, 0.05):
            continue
        if all(min_image(p, cart(g, vecs), vecs, pbc) > .05 for g in out):
            out.append(f)
            if r.random() < .15:
                # another atom very near, as in a structure with partly filled places
                f = [x + .002 for x in f]
                p = cart(f, vecs)
                if tie_free(wrap(p, vecs, pbc), 0.05) and tie_free(p, 0.05) and all(min_image(p, cart(g, vecs), vecs, pbc) > .004 for g in out):
                    out.append(f)
    return out


def on_face(f):
    """Float error may put such a point on either of two opposite faces (known finding of C10)."""
    return any(abs(x - round(x)) < 1e-9 for x in f)


def sc_lattice(r, log):
    vecs, pbc = rcell(r), rpbc(r)
    log.update(vecs=vecs, pbc=pbc)
    a = CONV.to_pylattica_lattice(PLattice(vecs, pbc=pbc))
    need(close(a.vecs, vecs, 1e-10), "vectors in pylattica", a.vecs)
    eq(tuple(bool(x) for x in a.periodic), pbc, "periodic directions in pylattica")
    b = CONV.to_pymatgen_lattice(Lattice(vecs, r.choice([pbc, list(pbc)])))
    need(close(b.matrix, vecs, 1e-10), "vectors in pymatgen", b.matrix)
    eq(tuple(bool(x) for x in b.pbc), pbc, "periodic directions in pymatgen")


def rpmg(r, log, spread=True):
    vecs, pbc = rcell(r), rpbc(r)
    fr = ratoms(r, vecs, pbc, spread=spread)
    sp = [r.choice(EL + ["Na+", "O2-"]) for _ in fr]
    log.update(vecs=vecs, pbc=pbc, species=sp, frac=fr)
    return PStructure(PLattice(vecs, pbc=pbc), sp, fr), vecs, pbc, [PStructure(PLattice(vecs), [s], [[0, 0, 0]])[0].species_string for s in sp], fr


def sc_builder(r, log):
    ps, vecs, pbc, sp, fr = rpmg(r, log)
    before = ps.as_dict()
    b = CONV.to_pylattica_structure_builder(ps)
    need(close(b.lattice.vecs, vecs, 1e-10), "vectors", b.lattice.vecs)
    eq(tuple(bool(x) for x in b.lattice.periodic), pbc, "periodic directions")
    st = b.build(1)
    eq(len(st.site_ids), len(fr), "number of sites")
    for s, f in zip(sp, fr):
        p = cart(f, vecs)
        i = st.id_at(tuple(p))
        need(i is not None, "no site at an atom", f, [st.site_location(j).tolist() for j in st.site_ids])
        eq(st.site_class(i), s, f"class of the site at {f}")
    n = tuple(r.randrange(1, 3) for _ in range(3))
    if any(min_image(cart(f, vecs), cart(g, vecs), vecs, (True,) * 3) < .05 for f, g in itertools.combinations(fr, 2)):
        return  # atoms of different cells would share a place along a direction that is not periodic
    big = b.build(n)
    eq(len(big.site_ids), len(fr) * n[0] * n[1] * n[2], f"number of sites in {n} cells")
    for k in itertools.product(*map(range, n)):
        for s, f in zip(sp, fr):
            q = cart(np.array(f) + np.array(k), vecs)
            if tie_free(q, 0.05) and tie_free(wrap(q, [np.array(v) * m for v, m in zip(vecs, n)], pbc), 0.05):
                eq(big.class_at(tuple(q)), s, f"class of the site at {f} in cell {k}")
    eq(str(ps.as_dict()), str(before), "pymatgen structure passed in")


def sc_struct_state(r, log):
    ps, vecs, pbc, sp, fr = rpmg(r, log)
    st, state = CONV.to_pylattica_structure_and_state(ps)
    need(close(st.lattice.vecs, vecs, 1e-9), "vectors", st.lattice.vecs)
    eq(tuple(bool(x) for x in st.lattice.periodic), pbc, "periodic directions")
    eq(len(st.site_ids), len(fr), "number of sites")
    eq(sorted(state.site_ids()), sorted(st.site_ids), "sites of the state")
    hit = set()
    for s, f in zip(sp, fr):
        near = [i for i in st.site_ids if min_image(st.site_location(i), cart(f, vecs), vecs, pbc) < .004]
        eq(len(near), 1, f"sites at {f}")
        hit.add(near[0])
        eq(st.site_class(near[0]), s, f"class of the site at {f}")
        eq(state.get_site_state(near[0])[OCC], s, f"occupancy of the site at {f}")
        need(on_face(f) or np.abs(np.array(st.site_location(near[0])) - wrap(cart(f, vecs), vecs, pbc)).max() < .002, "location", f)
    eq(len(hit), len(fr), "sites")


def sc_to_pymatgen(r, log):
    vecs, pbc = rcell(r), rpbc(r)
    fr = ratoms(r, vecs, pbc, lo=1)
    st = PeriodicStructure(Lattice(vecs, pbc))
    cl = []
    for f in fr:
        cl.append(r.choice(EL))
        st.add_site(cl[-1], tuple(cart(f, vecs)))
    log.update(vecs=vecs, pbc=pbc, species=cl, frac=fr)
    if not fr:
        return
    ps = CONV.to_pymatgen_structure(st)
    need(close(ps.lattice.matrix, vecs, 1e-10), "vectors", ps.lattice.matrix)
    eq(tuple(bool(x) for x in ps.lattice.pbc), pbc, "periodic directions")
    eq(len(ps), len(fr), "number of atoms")
    for k, (c, f) in enumerate(zip(cl, fr)):
        eq(ps[k].species_string, c, f"species of atom {k}")
        w = st.site_location(k)
        need(np.abs(ps[k].coords - np.array(w)).max() < 1e-6, f"position of atom {k}", ps[k].coords, w)
        need(on_face(f) or np.abs(np.array(w) - wrap(cart(f, vecs), vecs, pbc)).max() < .001, f"location of site {k}")


def sc_there_and_back(r, log):
    ps, vecs, pbc, sp, fr = rpmg(r, log)
    st, _ = CONV.to_pylattica_structure_and_state(ps)
    if not fr:
        return
    b = CONV.to_pymatgen_structure(st)
    eq(len(b), len(fr), "number of atoms")
    eq(sorted(x.species_string for x in b), sorted(sp), "species")
    need(close(b.lattice.matrix, vecs, 1e-9), "vectors")
    for s, f in zip(sp, fr):
        near = [x for x in b if min_image(x.coords, cart(f, vecs), vecs, pbc) < .004]
        eq([x.species_string for x in near], [s], f"atoms at {f}")
