import lib, store_common


def run():
    r = lib.Run("C01", "model_checking",
                "edit histories generated by TLC from GraphStore.tla: one per transition of the 2-node state graph, plus random long histories on 3 to 8 nodes; non-trivial: at least one edge edit was accepted")
    plans = [
        dict(name="bfs2", ids="{1, 2}", types='{"UNDIRECTED", "DIRECTED"}', vals="{1, 2}", mode="bfs", maxlen=99, pre=0, every=False, limit=lib.pick(9000, None)),
        dict(name="sim3", ids="{1, 2, 3}", types=store_common.TYPES, vals="{1, 2, 3}", mode="sim", maxlen=lib.pick(50, 120), pre=2, num=lib.pick(150, 1500), every=True),
        dict(name="sim5", ids="{1, 2, 3, 4, 5}", types=store_common.TYPES, vals="{1, 2, 3}", mode="sim", maxlen=lib.pick(60, 150), pre=4, num=lib.pick(60, 600), every=True),
        dict(name="sim8", ids="{1, 2, 3, 4, 5, 6, 7, 8}", types='{"UNDIRECTED", "DIRECTED"}', vals="{1, 2}", mode="sim", maxlen=lib.pick(80, 200), pre=8, num=lib.pick(12, 120), every=True),
    ]
    store_common.check(r, plans)
    return r.finish()
