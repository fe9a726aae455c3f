import lib
import pc_common as pc


def run():
    r = lib.Run("C06", "model_checking",
                "runs of all shipped PC variants on exact data of DAGs (outcome of every test known from d-separation) and on arbitrary data with few or many samples and several thresholds; every logged test, every cut, every kept edge and the edge histories are judged; non-trivial: some edges removed and some left")
    pc.pc_model(r)
    jobs = []
    for n, d in pc.dags(r, lib.pick({3: None, 4: 160, 5: 80, 6: 10}, {3: None, 4: None, 5: 600, 6: 100})):
        jobs.append((n, d, r.rng.choice(pc.VARIANTS), True, ["search"], None if r.rng.random() < 0.7 else 0.01))
    for n, c in lib.pick({3: 60, 4: 300, 5: 250, 6: 60}, {3: 200, 4: 2000, 5: 2000, 6: 500}).items():
        for _ in range(c):
            jobs.append((n, [], r.rng.choice(pc.VARIANTS), False, ["search"], r.rng.choice([None, 0.01, 0.05, 0.2, 0.5, 0.001])))
    # large conditioning sets: dense data, and pairs which only many variables together separate
    for v in pc.VARIANTS:
        jobs += [(n, [], v, "dense", ["search"], None) for n in lib.pick([6, 6, 6, 7], [6] * 20 + [7] * 10)]
        for k in lib.pick([4, 5], [4, 5, 6] * 5):
            jobs.append((*pc.mediators(k), v, True, ["search"], 0.9))
    pc.check(r, jobs)
    return r.finish()
