import lib
import pc_common as pc


def run():
    r = lib.Run("C05", "model_checking",
                "all DAGs with up to 4 nodes and random ones with 5 to 8, each shipped variant, exact data of the DAG with random coefficients, names, column and sample order; non-trivial: some edges removed and some left; on the specification: PC with a perfect oracle and any order of removals")
    pc.pc_model(r)
    ds = pc.dags(r, {2: None, 3: None, 4: None})
    big = pc.dags(r, lib.pick({5: 200, 6: 20}, {5: 2500, 6: 300}), "bigdags")
    jobs = []
    for i, (n, d) in enumerate(ds):
        vs = pc.VARIANTS
        jobs += [(n, d, v, True, ["exact"], None if r.rng.random() < 0.6 else r.rng.choice([0.01, 0.05, 0.001])) for v in vs]
    for n, d in big:
        for v in ([r.rng.choice(pc.VARIANTS)] if not lib.THOROUGH else r.rng.sample(pc.VARIANTS, 2)):
            jobs.append((n, d, v, True, ["exact"], None))
    # pairs which only many variables together separate
    for v in pc.VARIANTS:
        for k in lib.pick([4, 5, 6], [4, 5, 6, 7] * 5):
            jobs.append((*pc.mediators(k), v, True, ["exact"], 0.9))
    # more variables; a threshold near 1 still keeps every dependence of exact data
    for n, d in pc.dags(r, lib.pick({6: 24, 7: 24, 8: 8}, {6: 300, 7: 300, 8: 100}), "wide"):
        jobs.append((n, d, r.rng.choice(pc.VARIANTS), True, ["exact"], r.rng.choice([0.9, 0.9, 0.5])))
    pc.check(r, jobs)
    return r.finish()
