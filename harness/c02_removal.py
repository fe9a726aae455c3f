import lib, store_common

LAST = ("remove_soft", "remove_hard", "remove_d_soft", "remove_d_hard", "restore", "restore_d", "purge")


def run():
    r = lib.Run("C02", "model_checking",
                "edit histories generated by TLC from GraphStore.tla that add, remove (soft, hard, one or both directions), purge and restore edges: one per transition of the 2-node state graph that ends with a removal, purge or restore, plus random long ones on 3 to 8 nodes; all queries are recorded after every edit; non-trivial: at least one edge edit was accepted")
    plans = [
        dict(name="bfs2", ids="{1, 2}", types='{"UNDIRECTED", "DIRECTED"}', vals="{1, 2}", mode="bfs", maxlen=99, pre=2, next="RNext", last=LAST, every=False, limit=lib.pick(6000, None)),
        dict(name="sim3", ids="{1, 2, 3}", types=store_common.TYPES, vals="{1, 2, 3}", mode="sim", maxlen=lib.pick(50, 120), pre=3, next="RNext", num=lib.pick(200, 1500), every=True),
        dict(name="sim4", ids="{1, 2, 3, 4}", types='{"UNDIRECTED", "DIRECTED"}', vals="{1, 2, 3}", mode="sim", maxlen=lib.pick(70, 150), pre=4, next="RNext", num=lib.pick(80, 600), every=True),
        dict(name="sim8", ids="{1, 2, 3, 4, 5, 6, 7, 8}", types='{"UNDIRECTED", "DIRECTED"}', vals="{1, 2}", mode="sim", maxlen=lib.pick(80, 200), pre=8, next="RNext", num=lib.pick(12, 120), every=True),
    ]
    store_common.check(r, plans)
    return r.finish()
