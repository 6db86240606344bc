"""C13: DLGA genomes stay valid and elitist under every genetic history."""
import triton._C.libtriton  # noqa: F401
import copy
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from vlib import dlgaref as D, gens as G
from vlib.core import check, eq, facet
from vlib.sgaref import quiet

TECHNIQUE = ("stateful property-based testing: random sequences of initialise / crossover / mutate / deduplicate / select on random populations, "
             "with the population after each step compared with what the step may do to the population before it; whole evolutions repeated "
             "with equal seeds and re-scored")
RULE = "non-trivial: at least two individuals and a step that changed the population (operators); at least two generations (evolutions)"


def sorted_valid(g, n, what):
    check(len(g) > 0, f"{what}: empty genome")
    for mod in g:
        check(len(mod) > 0 and all(isinstance(i, (int, np.integer)) and 0 <= i < n for i in mod), f"{what}: term {mod} with {n} operators")


def genome_ok(g, n, what, distinct, is_sorted):
    sorted_valid(g, n, what)
    if is_sorted:
        check(all(list(m) == sorted(m) for m in g), f"{what}: unsorted term in {g}")
    if distinct:
        keys = [tuple(sorted(m)) for m in g]
        check(len(set(keys)) == len(keys), f"{what}: repeated term in {g}")


@st.composite
def histories(draw):
    s = draw(D.specs())
    n = D.n_ops(s)
    pop = draw(st.lists(D.genomes(n, max_terms=4, max_len=min(3, s["maxlen"]), distinct=draw(st.booleans())), min_size=s["pop"], max_size=s["pop"]))
    ops = draw(st.lists(st.sampled_from(["cross", "mutate", "dedup", "select", "genome"]), min_size=1, max_size=7))
    return {"s": s, "pop": pop, "ops": ops, "seed": draw(G.seeds), "clone": draw(st.booleans())}


def scores(m, s, pop):
    out = []
    for g in pop:
        c, l = m.translate_DNA(g)
        out.append(m.get_fitness(c, l))
    return out


@facet(histories(), quick=250, thorough=6000, shards=4)
def operators(case, ctx):
    s = case["s"]
    n = D.n_ops(s)
    with quiet():
        m = D.make(s)
    D.seed(case["seed"])
    pop = copy.deepcopy(case["pop"])
    if case["clone"] and len(pop) > 2:
        pop[-1] = copy.deepcopy(pop[0])     # tied individuals
    m.Chrom, m.Fitness = pop, []
    size = s["pop"]
    for op in case["ops"]:
        before = copy.deepcopy(m.Chrom)
        what = f"{op} of {before}"
        with quiet():
            if op == "cross":
                m.cross_over()
            elif op == "mutate":
                m.mutation()
            elif op == "dedup":
                m.delete_duplicates()
            elif op == "genome":
                g = m.random_genome()
                sorted_valid(g, n, "random genome"); eq([sorted(t) for t in g], [list(t) for t in g], "random genome terms sorted")
                check(len(g) <= s["maxlen"] and all(len(t) <= s["maxlen"] for t in g), f"random genome longer than {s['maxlen']}: {g}")
                continue
            else:
                m.delete_duplicates()
                before = copy.deepcopy(m.Chrom)
                m.select()
        after = m.Chrom
        eq(len(after), size, f"{what}: population size")
        for g in after:
            sorted_valid(g, n, what)
        if op == "cross":
            eq(size % 2 == 1 and after[-1] != before[-1], False, f"{what}: the unpaired individual changed")
            for i in range(0, size - 1, 2):
                for j, k in ((i, i + 1), (i + 1, i)):
                    eq(len(after[j]), len(before[j]), f"{what}: length of individual {j}")
                    diff = [a for a, b in zip(after[j], before[j]) if a != b]
                    check(len(diff) <= 1 and all(d in before[k] for d in diff), f"{what}: individual {j} became {after[j]}")
                eq(sorted(after[i] + after[i + 1]), sorted(before[i] + before[i + 1]), f"{what}: terms of the pair {i}")
        elif op == "mutate":
            for g, b in zip(after, before):
                # at most one term added, one deleted and one index changed
                lo, hi = len(b) - 1, len(b) + 1
                check(lo <= len(g) <= hi, f"{what}: {b} became {g}")
                lost = sum((Counter(map(tuple, b)) - Counter(map(tuple, g))).values())
                check(lost <= 2, f"{what}: {b} became {g}")
        elif op == "dedup":
            for g, b in zip(after, before):
                ref = []
                for t in b:
                    if sorted(t) not in ref:
                        ref.append(sorted(t))
                eq([list(t) for t in g], ref, f"{what}: without duplicates")
        elif op == "select":
            with quiet():
                sc = scores(m, s, before)
            k = size // 2
            eq((len(m.Fitness), len(m.coef), len(m.name)), (k, k, k), f"{what}: number of kept records")
            ref = sorted(x[1] for x in sc)[:k]
            check(np.allclose(m.Fitness, ref, rtol=1e-9, atol=1e-15), lambda: f"{what}: kept scores {m.Fitness}, the best are {ref}")
            check(all(a <= b for a, b in zip(m.Fitness, m.Fitness[1:])), f"{what}: kept scores not in order: {m.Fitness}")
            left = list(before)
            for j in range(k):
                check(after[j] in left, lambda: f"{what}: kept {after[j]}, which is not (or no longer) in the population")
                left.remove(after[j])
                c, f, _, nm = sc[before.index(after[j])]
                check(abs(f - m.Fitness[j]) <= 1e-9 * abs(f) + 1e-15, f"{what}: score {m.Fitness[j]} recorded for {after[j]}, which has {f}")
                eq(m.name[j], nm, f"{what}: left-hand side recorded for {after[j]}")
                check(np.allclose(m.coef[j], c, rtol=1e-9), f"{what}: coefficients recorded for {after[j]}")
            check(len({id(g) for g in after}) == size, f"{what}: two individuals share one genome object")
            check(m.fitness_history[-1] == m.Fitness[0] if k else True, "fitness history")
            h = m.evolution_history[-1]
            eq((h["population_size"], h["fitness"], h["complexity"], h["unique_modules"], h["generation"]),
               (size, m.Fitness[0], len(after[0]), len({tuple(sorted(t)) for g in after for t in g}), len(m.fitness_history)), "evolution record")
        ctx.nontrivial(size >= 2 and after != before); ctx.label(op)


@st.composite
def runs(draw):
    return {"s": draw(D.specs(max_pop=12)), "gens": draw(st.integers(1, 6)), "seed": draw(G.seeds)}


@facet(runs(), quick=120, thorough=3000, shards=4)
def evolutions(case, ctx):
    s, gens = case["s"], case["gens"]
    n = D.n_ops(s)
    res = []
    for _ in range(2):
        with quiet():
            m = D.make(s, gens)
            D.seed(case["seed"])
            r = m.evolution()
        res.append((m, r))
    (m, r), (m2, r2) = res
    ch, co, fi, na = r
    genome_ok(ch, n, "returned genome", True, True)
    eq(len(m.Chrom), s["pop"], "population size")
    for g in m.Chrom:
        sorted_valid(g, n, "final population")
    h = m.fitness_history
    eq(len(h), gens, "length of the fitness history")
    check(all(not (b > a) for a, b in zip(h, h[1:])), f"the best fitness got worse: {h}")
    eq([e["fitness"] for e in m.evolution_history], h, "evolution records")
    check(fi == h[-1] == m.Fitness[0] and ch == m.Chrom[0], f"returned fitness {fi}, history ends with {h[-1]}")
    check(list(m.Fitness) == sorted(m.Fitness), f"kept fitness not ordered {m.Fitness}")
    for g, c, f, nm in zip(m.Chrom, m.coef, m.Fitness, m.name):
        genome_ok(g, n, "kept genome", True, True)
        x = m.get_fitness(*m.translate_DNA(g))
        check(abs(x[1] - f) <= 1e-9 * abs(f) + 1e-15 and x[3] == nm and np.allclose(x[0], c, rtol=1e-9), f"{g} recorded with fitness {f}, {nm}; evaluating it gives {x[1]}, {x[3]}")
    check(r2[0] == ch and r2[2] == fi and r2[3] == na and np.array_equal(r2[1], co) and m2.Chrom == m.Chrom and m2.fitness_history == h,
          lambda: f"equal seeds disagree: {r} / {r2}")
    ctx.nontrivial(gens >= 2 and s["pop"] >= 2); ctx.label("kd" if s["kd"] else "base")
    ctx.label("improved", len(set(h)) > 1)
