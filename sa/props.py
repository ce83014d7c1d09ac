"""One function per property: which rules decide it."""
from . import base
from .core import Ctx, run_rules
from .witness import run_witnesses
from . import handles, visitors, collector, traverse, cross, erase, cost, typing

DATAFLOW = ("Path-sensitive dataflow analysis of the MIR of the working tree, in both feature "
            "configurations: every function concerned is expanded with its callees into an effect graph (a fixpoint "
            "over abstract states), and the typestate, ordering and accounting rules listed below are checked on "
            "every path of it. Where rules are about types, witnesses are type-checked against the extracted crate.")


def rules(prop, more=None):
    def check():
        rep = base.Report(prop)
        ex = base.extract()
        ctxs = [Ctx(c, p) for c, p in ex.items()]
        run_rules(rep, ctxs, prop)
        if more:
            more(rep, ctxs)
        for cx in ctxs:
            cx.measure(rep)
        rep.assumptions += ASSUME
        return rep.finish(DATAFLOW)
    return check


ASSUME = [
    "the standard library functions called by the crate behave as modelled in sa/models.py",
    "safe user code: Drop, Collectable and condition implementations obey their documented contracts",
]


def typing_witnesses(rep, ctxs):
    run_witnesses(rep, "c11", ["default", "cu"], "typing")
    rep.floor("typing-fail", 60)


def derive_witnesses(rep, ctxs):
    run_witnesses(rep, "c09", ["default", "cu"], "derive")
    rep.floor("derive-fail", 16)


PROPS = {p: rules(p) for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C10 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22").split()}
PROPS["C09"] = rules("C09", derive_witnesses)
PROPS["C11"] = rules("C11", typing_witnesses)

META = {
    "C01": ("path-sensitive dataflow over MIR: count accounting and a typestate automaton of the thread-local collector",
            "Decides, on every path, that drops destroy only at the last count and that the collector destroys only what was traced, "
            "accounted for and left unmarked. The step from these local rules to reachability is argued in DESIGN.md."),
    "C02": ("path-sensitive dataflow over MIR: count, claim and stamp accounting, typestate automaton of the concurrent collector",
            "Decides the local protocol of each operation on every path. Interleavings are covered by the protocol argument in "
            "DESIGN.md, not enumerated."),
    "C03": ("path-sensitive dataflow over MIR: tracking obligations and completeness of the thread-local collector",
            "Every tracked allocation is traced and every unmarked one destroyed, on every path; values whose traversal fails are "
            "exempt as stated."),
    "C04": ("path-sensitive dataflow over MIR: delivery and claim balance, completeness of the concurrent collector",
            "Claim balance is decided per operation on every path. One known finding."),
    "C05": ("path-sensitive dataflow over MIR: effects of Gc::drop, case by case",
            "All paths of both drop implementations with everything they call except the collection itself. One known finding."),
    "C06": ("path-sensitive dataflow over MIR: destruction typestate and layout provenance",
            "Exactly-once, ordering and layout rules on all paths that can destroy. One known finding."),
    "C07": ("path-sensitive dataflow over MIR: liveness typestate of handles",
            "All paths of all operations on handles, distinguished by whether the handle is live."),
    "C08": ("structural coverage analysis of the built-in traversals over MIR and type layout",
            "Every implementation found in the crate, every field, variant and element source, in both configurations."),
    "C09": ("coverage analysis of the traversals the macro generates for a corpus of types, and compile-fail witnesses",
            "Assurance extends to the shapes in corpus/derive.rs (all field, variant and generic forms), not to every conceivable type."),
    "C10": ("path-sensitive dataflow over MIR: error flow from failed accesses to the keep-alive decision",
            "All lock and cell implementations, both collectors and both drops, on every path."),
    "C11": ("compile-fail witnesses with compiling twins, signature analysis",
            "The type checker decides each witness; assurance covers the listed escape routes, not every conceivable program."),
    "C12": ("lock and borrow typestate over MIR, lock-order graph",
            "All paths on which user code, a drop of a user value or a collection runs."),
    "C13": ("typestate automaton of sync::collect and the collection lock over MIR",
            "All paths of collect() and of the collection it runs."),
    "C14": ("path-sensitive dataflow over MIR: counter accounting",
            "All paths of creation, cloning, dropping and collecting, and the default conditions as boolean functions."),
    "C15": ("path-sensitive dataflow over MIR: access to thread-locals, delivery at exit",
            "All paths, including those on which a thread-local is already destroyed."),
    "C16": ("pointer provenance analysis over MIR and layout facts",
            "All erasing, recovering and coercing functions in both configurations."),
    "C17": ("value-flow analysis of the accessors over MIR, trait-bound facts",
            "All paths of every public accessor and comparison."),
    "C18": ("ordering analysis of stamps over MIR",
            "The stamp precedes the access on every path of every operation; the collector consults it on every path."),
    "C19": ("memory-ordering and last-use analysis over MIR",
            "Orderings of every atomic that gives up or takes over a claim, and last use per path. One known finding."),
    "C20": ("unwind-path typestate over MIR",
            "Every unwind edge of every call into user code."),
    "C21": ("path-sensitive dataflow over MIR: effects of visiting handles of the other kind",
            "All visitors of the crate and both kinds of handles."),
    "C22": ("loop and first-visit analysis over MIR, counter accounting",
            "Necessary conditions of the bound only: the trigger rule, each allocation followed on its first visit, no other loops. "
            "The sum over histories is argued in DESIGN.md, not computed."),
}
NOT_APPLICABLE = {}
