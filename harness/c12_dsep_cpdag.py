import lib, sep_common


def run():
    r = lib.Run("C12", "model_checking",
                "the CPDAGs (computed by the specification) of all DAGs with up to 4 nodes, of one of every isomorphism class with 5 and of random ones with 5 and 6, every pair and conditioning set (sampled for the random ones), through manager and graph, both endpoint orders, nodes as objects, ids or mixed, with and without deleted edges; non-trivial: the graph has an edge and the answer is a boolean")
    sep_common.check(r, "cpdag")
    return r.finish()
