from ista.guarded import Guarded, atomicity, locks

TABLE = {
    "StatServer::metaInfo_": "StatServer::metaMutex_",
    "MetaInfo::info_": "StatServer::metaMutex_",
    "MetaInfo::activity_": "StatServer::metaMutex_",
    "MetaInfo::online_": "StatServer::metaMutex_",
    "MetaInfo::connected_": "StatServer::metaMutex_",
    "StatServer::forwardBuckets_": "StatServer::forwardMutex_",
    "StatServer::noConnectionCounts_": "StatServer::forwardMutex_",
    "StatServer::agentFlushRequests_": "StatServer::agentMutex_",
    "AgentFlushRequest::sizes_": "StatServer::agentMutex_",
    "Bucketizer::buckets": "StatServer::forwardMutex_",
    "Bucketizer::now": "StatServer::forwardMutex_",
}


def run(P, R):
    L = locks(P)
    G = Guarded(P, L, TABLE)
    R.rule("guarded", "each access to the agent table and its entries, the forward buffer and the flush-request list happens with its own mutex held", 15)
    G.check(R, "guarded")
    R.rule("one-section", "no blind change is based on a look made in an earlier critical section", 1)
    atomicity(G, R, "one-section", ["StatServer::metaInfo_", "StatServer::forwardBuckets_", "StatServer::agentFlushRequests_"], classes={"StatServer"})
