import lib, sep_common


def run():
    r = lib.Run("C11", "model_checking",
                "all DAGs with up to 4 nodes, one of every isomorphism class with 5, random ones with 5 and 6 and ones with remote descendants of colliders, every pair and conditioning set (sampled for the random ones), through manager and graph, both endpoint orders, nodes as objects, ids or mixed, with and without deleted edges; non-trivial: the graph has an edge and the answer is a boolean")
    sep_common.check(r, "dag")
    return r.finish()
