from ista.guarded import Guarded, atomicity, locks

LF = "istat::logFileLock_"
TABLE = {
    "RealSettingsFactory::files_": "RealSettingsFactory::lock_",
    "RealSettings::settings_": "RealSettings::lock_",
    "RealSettings::dirty_": "RealSettings::lock_",
    "RealSettings::saveQueued_": "RealSettings::lock_",
    "RealSettings::saveTimer_": "RealSettings::lock_",
    "Blacklist::blacklistSet_": "Blacklist::lock_",
    "Blacklist::lastModifiedTime_": "Blacklist::lock_",
    "PromExporter::data_gauges_": "PromExporter::mutex_",
    "PromExporter::data_counters_": "PromExporter::mutex_",
    "EagerConnectionFactory::pending_": "mutex_",
    "PduReaderActor::pending_": "PduReaderActor::lock_",
    "PduReaderActor::pduComplete_": "PduReaderActor::lock_",
    "istat::logFile_": LF, "istat::g_logFileName_": LF, "istat::logN_": LF, "istat::sameCount_": LF,
    "istat::sameSize_": LF, "istat::sameBuf_": LF,
    "istat::LogInstanceFile::fd_": "istat::LogInstanceFile::lock_",
    "MultiCounterWorker::wrote_": "MultiCounterWorker::strmLock",
}
ATOM = ["RealSettingsFactory::files_", "RealSettings::settings_", "Blacklist::blacklistSet_", "PromExporter::data_gauges_",
        "PromExporter::data_counters_", "EagerConnectionFactory::pending_", "PduReaderActor::pending_"]


def run(P, R):
    L = locks(P)
    G = Guarded(P, L, TABLE)
    R.rule("guarded", "each access to settings tables and contents, blacklist, stored metrics, the pending accepted connection, the PDU queue and log state happens under the owning lock", 40)
    G.check(R, "guarded")
    R.rule("one-section", "no blind change rests on a look made in an earlier critical section", 5)
    atomicity(G, R, "one-section", ATOM, classes={"RealSettingsFactory", "RealSettings", "Blacklist", "PromExporter",
                                                  "EagerConnectionFactory", "PduReaderActor"})
    for fld in TABLE:
        R.rule("covers " + fld, "accesses of %s found" % fld, 1)
    seen = {}
    for o in list(R.obs):
        if o[0] == "guarded":
            f = o[2].split(" ")[0]
            seen[f] = seen.get(f, 0) + 1
    for fld in TABLE:
        if seen.get(fld):
            R.ob("covers " + fld, "", "%d accesses" % seen[fld])
