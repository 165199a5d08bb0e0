"""Shared facts about query plan nodes (hdk::ir::Node) used by C07 and C08."""
from vlib import model

SOURCES = ["IR/Node.cpp"]
# state of one execution or one object, not of the plan
TRANSIENT = {"id_": "every node object has its own id", "hash_": "cached value", "context_data_": "execution state",
             "targets_metainfo_": "execution state", "dag_node_id_": "execution state", "result_": "execution state"}


def load():
    return model.load(SOURCES)


def concrete(prog):
    root = prog.record("hdk::ir::Node")
    out = [prog.rec_by_u[u] for u in prog.subclasses(root.u)]
    return sorted([r for r in out if not r.abs], key=lambda r: (r.f, r.l))
