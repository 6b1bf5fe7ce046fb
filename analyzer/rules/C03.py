from ista.guarded import Guarded, atomicity, locks

M = "EagerConnection::mutex_"
TABLE = {
    "EagerConnection::incoming_": M,
    "EagerConnection::outgoing_": M,
    "EagerConnection::inBuf_": M,
    "EagerConnection::writeBuf_": M,
}
ATOM = ["EagerConnection::incoming_", "EagerConnection::outgoing_"]


def run(P, R):
    L = locks(P)
    G = Guarded(P, L, TABLE)
    R.rule("guarded", "each access to a connection's receive/send buffers happens with that connection's mutex_ held", 15)
    G.check(R, "guarded")
    R.rule("one-section", "bytes are removed or appended in the critical section that looked at the buffer", 3)
    atomicity(G, R, "one-section", ATOM, classes={"EagerConnection"})
