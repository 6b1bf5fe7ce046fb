From 70db21215336a50912cb98c2aa97b7cbcd131bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 01/68] fix: hold metaMutex_ while agent metadata is changed

---
 daemon/StatServer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a7195e3..107e9a2 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -411,7 +411,10 @@ void StatServer::on_inputData(boost::shared_ptr<ConnectionInfo> ec)
     {
         return;
     }
-    ::time(&metaInfo(ec)->activity_);
+    {
+        grab aholdof(metaMutex_);
+        ::time(&metaInfo(ec)->activity_);
+    }
     std::string s;
     s.resize(sz);
     if (debugTcp)
@@ -582,7 +585,10 @@ bool StatServer::handle_meta_info(std::string const &cmd, boost::shared_ptr<Conn
     }
     istat::trim(left);
     istat::trim(right);
-    metaInfo(ec)->info_[left.substr(1)] = right;
+    {
+        grab aholdof(metaMutex_);
+        metaInfo(ec)->info_[left.substr(1)] = right;
+    }
 
     for (ForwardList::iterator i = forward_.begin(); i !=  forward_.end(); ++i) {
         // we do not bucketize the agent info ... direct forward
-- 
2.43.0


From 4e81c85e88a6314f3df8fe3206b68717a7e2f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 02/68] fix: hold the connection lock while its buffers and
 read flag change

---
 daemon/EagerConnection.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index bac2560..c85cb44 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -362,6 +362,7 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
         hasErrorConnect_ = false;
         if (initialData_.size())
         {
+            grab aholdof(mutex_);
             outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
         }
         onConnect_();
@@ -460,12 +461,14 @@ void EagerConnection::on_read(boost::system::error_code const &err, size_t xfer)
     LogSpam << "EagerConnection::on_read(" << xfer << ")";
     if (!err)
     {
-        if (xfer > 0)
         {
             grab aholdof(mutex_);
-            incoming_.insert(incoming_.end(), inBuf_.begin(), inBuf_.begin() + xfer);
+            if (xfer > 0)
+            {
+                incoming_.insert(incoming_.end(), inBuf_.begin(), inBuf_.begin() + xfer);
+            }
+            readPending_ = false;
         }
-        readPending_ = false;
         assert(1 == ++interlock_);
         onData_();
         assert(0 == --interlock_);
@@ -483,10 +486,10 @@ void EagerConnection::on_read(boost::system::error_code const &err, size_t xfer)
         }
         socket_.close();
         onDisconnect_();
+        grab aholdof(mutex_);
         readPending_ = false;
         if (opened_)
         {
-            grab aholdof(mutex_);
             tryLater();
         }
     }
-- 
2.43.0


From 4ac9fc2fc1d9c5a40f8d53176b64a7b90b950fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 03/68] fix: re-read the key list head when exchanging, and
 keep match() off freed records

---
 daemon/AllKeys.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/daemon/AllKeys.cpp b/daemon/AllKeys.cpp
index a015a6b..036d417 100644
--- a/daemon/AllKeys.cpp
+++ b/daemon/AllKeys.cpp
@@ -15,7 +15,8 @@ DebugOption allKeys("allKeys");
 
 CounterResponse::CounterDisplayTypeToStringMap CounterResponse::DisplayTypeToString = map_list_of(DisplayTypeGauge, "gauge")(DisplayTypeEvent, "counter")(DisplayTypeAggregate, "aggregate");
 AllKeys::AllKeys() :
-    head_(0)
+    head_(0),
+    dirty_(true)
 {
 }
 
@@ -33,10 +34,14 @@ AllKeys::~AllKeys()
 
 void AllKeys::exchange(AllKeys &ak)
 {
-    Rec* old_head = head_;
-    dirty_ = true;
+    //  match() walks the list under this lock, so the caller may free
+    //  the list it gets back.
+    grab aholdof(lock_);
+    Rec* old_head;
     while (true)
     {
+        //  add() may have won a race; look at the head again each time
+        old_head = head_;
         if(istat::atomic_compare_exchange((void * volatile *)&head_, (void *)old_head, (void *)ak.head_))
         {
             break;
@@ -45,12 +50,11 @@ void AllKeys::exchange(AllKeys &ak)
     }
     ak.head_ = old_head;
     toMatch_.clear();
-
+    dirty_ = true;
 }
 
 void AllKeys::add(std::string const &str, bool isCollated)
 {
-    dirty_ = true;
     if (allKeys.enabled())
     {
         LogSpam << "AllKeys::add(" << str << ")";
@@ -65,6 +69,8 @@ void AllKeys::add(std::string const &str, bool isCollated)
         r->next = head_;
         if (istat::atomic_compare_exchange((void * volatile *)&head_, (void *)r->next, (void *)r))
         {
+            //  only now can match() find the new record
+            dirty_ = true;
             return;
         }
     }
-- 
2.43.0


From ccce3385cd1a1822304b3414d0376425a14c82fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 04/68] fix: read and replace a store entry's counter pointer
 atomically

---
 daemon/StatStore.cpp | 21 ++++++++++-----------
 daemon/StatStore.h   |  9 +++++++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f1bd066..aedaa6b 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -141,9 +141,9 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
             ++IStatCounter::enqueueRecords_;
             ++IStatCounter::queueLenRecords_;
 #if BOOST_VERSION >= 106700
-            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->statCounter_, time, value, valueSq, min, max, cnt)));
+            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #else
-            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->statCounter_, time, value, valueSq, min, max, cnt)));
+            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #endif
         }
         if (!stripext(cname))
@@ -164,7 +164,7 @@ void StatStore::find(std::string const &ctr, boost::shared_ptr<IStatCounter> &st
         statCounter = boost::shared_ptr<IStatCounter>((IStatCounter*)0);
         return;
     }
-    statCounter = asyncCounter->statCounter_;
+    statCounter = asyncCounter->counter();
     strand = &asyncCounter->strand_;
 
 }
@@ -238,7 +238,7 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             return asyncCounter;
         }
         counters[xform] = asyncCounter;
-        keys_.add(xform, asyncCounter->statCounter_->isCollated());
+        keys_.add(xform, asyncCounter->counter()->isCollated());
     }
 
     if(recursivelyCreateCounters_ && create)
@@ -266,9 +266,9 @@ void StatStore::flushOne(Shards::iterator &iterator)
     }
     LogSpam << "StatStore::flushOne(" << key << ")";
 #if BOOST_VERSION >= 106700
-    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->statCounter_, shared_from_this())));
+    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
 #else
-    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->statCounter_, shared_from_this())));
+    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
 #endif
 }
 
@@ -543,8 +543,7 @@ void StatStore::deleteCounter(std::string const &ctr, Deleter* deleter, IComplet
     boost::shared_ptr<StatStore::AsyncCounter> aCount = openCounter(ctr, false, false, 0);
     if (!!aCount)
     {
-        boost::shared_ptr<IStatCounter> oldPtr = aCount->statCounter_;
-        aCount->statCounter_ = theDeletedCounter;
+        boost::shared_ptr<IStatCounter> oldPtr = aCount->replaceCounter(theDeletedCounter);
         Deleter::Work w;
         w.aCount = aCount;
         w.counter = oldPtr;
@@ -603,9 +602,9 @@ void StatStore::refreshAllKeys()
         {
             key = (*it).first;
             value = (*it).second;
-            if(!(value->statCounter_ == theDeletedCounter))
+            if(!(value->counter() == theDeletedCounter))
             {
-                keysWA_.add(key, value->statCounter_->isCollated());
+                keysWA_.add(key, value->counter()->isCollated());
                 ++it;
             }
             else
@@ -664,7 +663,7 @@ public:
         boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());
         ptrs.pop_front();
         // Force, so collations are fully shifted.
-        ptr->statCounter_->forceFlush(ss_);
+        ptr->counter()->forceFlush(ss_);
         go();
     }
     boost::shared_ptr<IStatStore> ss_;
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index 64aa396..828c866 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -78,6 +78,15 @@ public:
             strand_(svc) {
 #endif
         }
+        //  The counter is replaced when it is deleted, while other threads look it up.
+        boost::shared_ptr<IStatCounter> counter() const
+        {
+            return boost::atomic_load(&statCounter_);
+        }
+        boost::shared_ptr<IStatCounter> replaceCounter(boost::shared_ptr<IStatCounter> const &other)
+        {
+            return boost::atomic_exchange(&statCounter_, other);
+        }
         boost::shared_ptr<IStatCounter> statCounter_;
 #if BOOST_VERSION >= 106700
         boost::asio::strand<boost::asio::io_service::executor_type> strand_;
-- 
2.43.0


From e49d4ad93d54e025d9761a494c30bc6c82fb9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 05/68] fix: hold the accept lock whenever the pending
 connection is used

---
 daemon/EagerConnectionFactory.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/daemon/EagerConnectionFactory.cpp b/daemon/EagerConnectionFactory.cpp
index d7edf1c..2da9cee 100644
--- a/daemon/EagerConnectionFactory.cpp
+++ b/daemon/EagerConnectionFactory.cpp
@@ -70,14 +70,12 @@ void EagerConnectionFactory::startAccept()
     LogSpam << "EagerConnectionFactory::startAccept()";
     try
     {
+        grab aholdof(mutex_);
         if (pending_ != 0)
         {
             throw std::runtime_error("Attempt to startAccept() when already accepting.");
         }
-        {
-            grab aholdof(mutex_);
-            pending_ = EagerConnection::create(svc_);
-        }
+        pending_ = EagerConnection::create(svc_);
         acceptor_.async_accept(pending_->asEagerConnection()->socket_,
             pending_->asEagerConnection()->endpoint_,
             boost::bind(&EagerConnectionFactory::on_accept, this, boost::asio::placeholders::error));
@@ -97,12 +95,18 @@ void EagerConnectionFactory::on_accept(boost::system::error_code const &err)
         if (!!err)
         {
             LogWarning << "EagerConnectionFactory got an error accepting a connection: " << err;
-            pending_ = boost::shared_ptr<ConnectionInfo>();
+            {
+                grab aholdof(mutex_);
+                pending_ = boost::shared_ptr<ConnectionInfo>();
+            }
             timer_.expires_from_now(boost::posix_time::seconds(1));
             timer_.async_wait(boost::bind(&EagerConnectionFactory::startAccept, this));
             return;
         }
-        pending_->open();
+        {
+            grab aholdof(mutex_);
+            pending_->open();
+        }
         onConnection_();
     }
     catch (...)
-- 
2.43.0


From fa5678f73d84276d5ac3e7e0c447c4d952755549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 06/68] fix: lock the PDU queue in on_data and fill the newest
 PDU

---
 daemon/ReplicaPdus.cpp | 63 +++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/daemon/ReplicaPdus.cpp b/daemon/ReplicaPdus.cpp
index 70ac881..9d035bc 100644
--- a/daemon/ReplicaPdus.cpp
+++ b/daemon/ReplicaPdus.cpp
@@ -43,28 +43,29 @@ void PduReaderActor::on_disconnect()
 void PduReaderActor::on_data()
 {
 again:
-    if (pduComplete_)
     {
-        //  previous PDU was complete, so make sure we can start a new PDU!
-        if (conn_->pendingIn() < 8)
+        //  nextPdu() may be called on some other thread
+        grab aholdof(lock_);
+        if (pduComplete_)
         {
-            //  not enough for a header
-            return;
+            //  previous PDU was complete, so make sure we can start a new PDU!
+            if (conn_->pendingIn() < 8)
+            {
+                //  not enough for a header
+                return;
+            }
+            //  make a header for the new PDU
+            pending_.push_back(PduHeader());
+            PduHeader &h = pending_.back();
+            size_t n = conn_->readIn(&h.type, 4);
+            //  this should always be true, because we already checked available size
+            assert(n == 4);
+            n = conn_->readIn(&h.size, 4);
+            assert(n == 4);
+            pduComplete_ = false;
         }
-        //  make a header for the new PDU
-        pending_.push_back(PduHeader());
-        PduHeader &h = pending_.back();
-        size_t n = conn_->readIn(&h.type, 4);
-        //  this should always be true, because we already checked available size
-        assert(n == 4);
-        n = conn_->readIn(&h.size, 4);
-        assert(n == 4);
-        pduComplete_ = false;
-    }
-    //  fill an existing PDU
-    {
-        //  scope to show that this reference dies when going back to the beginning
-        PduHeader &i = pending_.front();
+        //  fill the PDU that is not yet complete, which is always the newest one
+        PduHeader &i = pending_.back();
         size_t got = i.payload.size();
         size_t needed = i.size - got;
         size_t avail = conn_->pendingIn();
@@ -72,19 +73,23 @@ again:
         {
             avail = needed;
         }
-        i.payload.resize(got + avail);
-        //  read what's available, up to as much as we need
-        size_t nn = conn_->readIn(&i.payload[got], avail);
-        //  it should already be there!
-        assert(nn == avail);
-        if (i.payload.size() == i.size)
+        if (avail > 0)
         {
-            //  if we completed, mark it complete, and check for another one
-            pduComplete_ = true;
-            onPdu_();
-            goto again;
+            i.payload.resize(got + avail);
+            //  read what's available, up to as much as we need
+            size_t nn = conn_->readIn(&i.payload[got], avail);
+            //  it should already be there!
+            assert(nn == avail);
+        }
+        if (i.payload.size() != i.size)
+        {
+            return;
         }
+        //  if we completed, mark it complete, and check for another one
+        pduComplete_ = true;
     }
+    onPdu_();
+    goto again;
 }
 
 
-- 
2.43.0


From 6435b75e9a6a7f10471ce2112721f0a6fc32877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 07/68] fix: lock the table of open settings in get()

---
 daemon/Settings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 7765c18..595f0bd 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -249,6 +249,7 @@ void RealSettingsFactory::get(std::string const &domain, boost::shared_ptr<ISett
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::get( " << domain << " )";
     settings = boost::shared_ptr<ISettings>((ISettings *)0);
+    grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(domain));
     if (ptr != files_.end())
     {
-- 
2.43.0


From 90d0637b5c6b757b2da085ed0200bf38b9fe9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 08/68] fix: validate a counter file's header before trusting
 or resizing the file

A refused file no longer leaks its descriptor or header copy, is not
truncated or extended, and a zero interval or page count is refused
(it used to end in a division by zero).
---
 include/istat/StatFile.h |  2 +
 lib/StatFile.cpp         | 84 ++++++++++++++++++++++++++++++----------
 2 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/include/istat/StatFile.h b/include/istat/StatFile.h
index 7508fa0..6d35366 100644
--- a/include/istat/StatFile.h
+++ b/include/istat/StatFile.h
@@ -100,6 +100,8 @@ namespace istat
 
         void closefd();
         void open(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate);
+        void openHeader(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate);
+        bool isBlankHeader(int64_t size);
         void writeNewHeader(Settings const &init, std::string const &path);
         void refreshHeader(Header &hdr);
         void flushOneExpBucket();
diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1012f11..1a30565 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -113,56 +113,76 @@ namespace istat
             throw std::runtime_error(std::string("Could not open: ") + path +
                 ": " + strerror(errno));
         }
+        try
+        {
+            openHeader(path, init, forUpdate, forceCreate);
+        }
+        catch (...)
+        {
+            //  a refused file leaves nothing behind
+            if (fileHeader_)
+            {
+                mm_->unmap(fileHeader_, sizeof(Header));
+                fileHeader_ = 0;
+            }
+            closefd();
+            throw;
+        }
+    }
+
+    void StatFile::openHeader(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate)
+    {
         ptrdiff_t off = mm_->seek(fd_, 0, 2);
-        if ((off == 0 || forceCreate) && (init != 0))
+        if ((off == 0 || forceCreate || isBlankHeader(off)) && (init != 0))
         {
             writeNewHeader(*init, path);
             off = mm_->seek(fd_, 0, 2);
         }
+        if (off < (ptrdiff_t)sizeof(Header))
+        {
+            throw std::runtime_error(std::string("Too short to be an istat file: ") + path);
+        }
         fileHeader_ = (Header *)mm_->map(fd_, 0, sizeof(Header), forUpdate || forceCreate);
         if (!fileHeader_)
         {
-            closefd();
             throw std::runtime_error(std::string("Could not map header: ") + path);
         }
-        size_t wantFileSize = fileHeader_->page_size * (fileHeader_->page_count + 1);
-        if (0 < wantFileSize - off)
-        {
-            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
-                << off << "to" << wantFileSize;
-            int r = mm_->truncate(fd_, wantFileSize);
-            if (r < 0)
-            {
-                closefd();
-                throw std::runtime_error(std::string("Could not extend ") + path + " to "
-                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
-            }
-            off = mm_->seek(fd_, 0, 2);
-        }
         Header &hdr = *(Header *)fileHeader_;
         if (memcmp(file_magic, hdr.magic, sizeof(file_magic)))
         {
-            closefd();
             throw std::runtime_error(std::string("Not an istat file: ") + path);
         }
         if (hdr.rd_version > CUR_HDR_VERSION)
         {
-            closefd();
             throw std::runtime_error(std::string("File version is too new: ") + path);
         }
         if (hdr.page_size < sysconf(_SC_PAGE_SIZE))
         {
-            closefd();
             throw std::runtime_error(std::string("Page size inconsistent: ") + path);
         }
         if (hdr.hdr_size != sizeof(Header) && hdr.cr_version == CUR_HDR_VERSION)
         {
-            closefd();
             throw std::runtime_error(std::string("Header size changed within the current version! ") + path +
                 "header version" + boost::lexical_cast<std::string>((int)CUR_HDR_VERSION) + 
                 "size" + boost::lexical_cast<std::string>(hdr.hdr_size) + 
                 "expected" + boost::lexical_cast<std::string>(sizeof(Header)));
         }
+        if (hdr.cfg_interval < 1 || hdr.page_count < 1)
+        {
+            throw std::runtime_error(std::string("Bad interval or page count: ") + path);
+        }
+        ptrdiff_t wantFileSize = hdr.page_size * (hdr.page_count + 1);
+        if (off < wantFileSize)
+        {
+            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
+                << off << "to" << wantFileSize;
+            int r = mm_->truncate(fd_, wantFileSize);
+            if (r < 0)
+            {
+                throw std::runtime_error(std::string("Could not extend ") + path + " to "
+                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
+            }
+        }
         if (hdr.cr_version < CUR_HDR_VERSION)
         {
             refreshHeader(hdr);
@@ -181,6 +201,30 @@ namespace istat
         fileHeader_->name[sizeof(fileHeader_->name)-1] = 0;
     }
 
+    //  The file gets its full size before the header is written, so a file that
+    //  starts with zeros is one whose creation was interrupted.
+    bool StatFile::isBlankHeader(int64_t size)
+    {
+        char data[sizeof(Header)];
+        if (size < (int64_t)sizeof(data))
+        {
+            return false;
+        }
+        mm_->seek(fd_, 0, 0);
+        if (mm_->read(fd_, data, sizeof(data)) != (ssize_t)sizeof(data))
+        {
+            return false;
+        }
+        for (size_t i = 0; i != sizeof(data); ++i)
+        {
+            if (data[i] != 0)
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     void StatFile::refreshHeader(Header &hdr)
     {
         if (hdr.cr_version < 5)
-- 
2.43.0


From 8ba9bfc33bfaac6405c14951a1d785fb312194a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 09/68] fix: a query for one sample of an empty range no longer
 divides by zero

---
 daemon/StatCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 2e6ff2c..c93a34f 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -580,7 +580,7 @@ boost::shared_ptr<istat::StatFile> StatCounter::pickTrailingStatFile(time_t seas
 //  samples desired.
 void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, size_t maxSamples)
 {
-    if (maxSamples == 1)
+    if (maxSamples == 1 && end > start)
     {
         //  do a single bucket!
         interval = end - start;
-- 
2.43.0


From 0c652509ed7d2a12aa31344a77f9256940d1817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 10/68] fix: a mapping that cannot be read fails, and never
 holds uninitialized memory

---
 lib/Mmap.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index 0ed8744..b179549 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -117,11 +117,21 @@ namespace istat
 #if BLOCKING
             verify(fd);
             MmapInfo *ptr = (MmapInfo *)malloc(sizeof(MmapInfo) + size);
+            if (!ptr)
+            {
+                return 0;
+            }
             ptr->offset = offset;
             ptr->size = size;
             ptr->fd = fd;
             this->seek(fd, offset, SEEK_SET);
-            this->read(fd, ptr + 1, size);
+            ssize_t got = this->read(fd, ptr + 1, size);
+            if (got < 0)
+            {
+                free(ptr);
+                return 0;
+            }
+            memset((char *)(ptr + 1) + got, 0, size - got);
             __sync_add_and_fetch(&nMaps_, (int64_t)1);
             return ptr + 1;
 #else
-- 
2.43.0


From 3f34e880e9fdea54a19e19b58307210975421f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 11/68] fix: report it when space for a counter file cannot be
 allocated

---
 lib/Mmap.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index b179549..d66512a 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -95,7 +95,13 @@ namespace istat
             {
                 if (allocationStrategy_ == allocateAll)
                 {
-                    ret = ::posix_fallocate(i, 0, size);
+                    //  posix_fallocate() returns the error, and does not set errno
+                    int err = ::posix_fallocate(i, 0, size);
+                    if (err != 0)
+                    {
+                        errno = err;
+                        ret = -1;
+                    }
                 }
             }
             return ret;
-- 
2.43.0


From 8e174108f0898c5c61cfd33a3f16923b2139b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 12/68] fix: saving settings replaces the file atomically and
 keeps unsaved changes when it fails

---
 daemon/Settings.cpp | 46 +++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 595f0bd..0f0e195 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -48,7 +48,7 @@ public:
     void set(std::string const &key, std::string const &value);
 
     void queueSave();
-    void save(boost::shared_ptr<ISettings> const &me);
+    bool save(boost::shared_ptr<ISettings> const &me);
 };
 
 
@@ -129,12 +129,19 @@ void RealSettingsFactory::flush(IComplete *complete)
     for (std::map<std::string, boost::shared_ptr<ISettings> >::iterator
         ptr(files_.begin()), end(files_.end());
         ptr != end;
-        ++ptr)
+        )
     {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
+        if (static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second))
+        {
+            //  this allows all settings to be re-loaded if edited
+            files_.erase(ptr++);
+        }
+        else
+        {
+            //  don't lose changes that could not be written
+            ++ptr;
+        }
     }
-    //  this allows all settings to be re-loaded if edited
-    files_.clear();
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
@@ -146,8 +153,10 @@ void RealSettingsFactory::flush_one(std::string const &name, IComplete *complete
     grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(name));
     if (ptr != files_.end()) {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
-        files_.erase(ptr);
+        if (static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second))
+        {
+            files_.erase(ptr);
+        }
     }
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
@@ -384,10 +393,11 @@ void RealSettings::queueSave()
     }
 }
 
-void RealSettings::save(boost::shared_ptr<ISettings> const &me)
+bool RealSettings::save(boost::shared_ptr<ISettings> const &me)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettings::save(" << name_ << ")";
     grab aholdof(lock_);
+    saveQueued_ = false;
     if (dirty_) {
         //  Only re-write if dirty. This allows a settings file to be edited on disk and re-loaded
         //  with a flush on the admin interface.
@@ -395,6 +405,7 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
         std::string fileName;
         fileName = fac_->path_ + "/" + name_ + ".set";
         tmpName = fileName + ".tmp";
+        try
         {
             std::ofstream ostr(tmpName.c_str(), std::ios::binary | std::ios::out | std::ios::trunc);
             ostr << "# istatd settings 1" << std::endl;
@@ -407,14 +418,21 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
                     ostr << (*ptr).first << "=" << istat::sql_quote((*ptr).second) << std::endl;
                 }
             }
+            ostr.close();
+            if (!ostr)
+            {
+                throw std::runtime_error("settings: cannot write file: " + tmpName);
+            }
+            //  Now, move the new file in place of the old.
+            boost::filesystem::rename(tmpName, fileName);
         }
-        //  Now, move the new file in place of the old.
-        //  First, remove the old file, to generate an error if we don't have permission.
-        if (boost::filesystem::exists(fileName))
+        catch (std::exception const &x)
         {
-            boost::filesystem::remove(fileName);
+            //  the old file is still there, and the changes are still unsaved; try again later
+            LogError << "settings: cannot save:" << name_ << ":" << x.what();
+            queueSave();
+            return false;
         }
-        boost::filesystem::rename(tmpName, fileName);
     }
     else
     {
@@ -423,9 +441,9 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
             LogDebug << "settings not dirty";
         }
     }
-    saveQueued_ = false;
     dirty_ = false;
     ++countSaves;
+    return true;
 }
 
 
-- 
2.43.0


From 4ab7a4b3dbf8e7642b664807ace2f37275522854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 13/68] fix: freshly loaded settings do not start out marked as
 changed

---
 daemon/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 0f0e195..123a43e 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -319,7 +319,8 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     fac_(rsf),
     name_(name),
     saveTimer_(rsf->svc_),
-    saveQueued_(false)
+    saveQueued_(false),
+    dirty_(false)
 {
     LogSpam << "RealSettings::RealSettings(" << name << ")";
 }
-- 
2.43.0


From ed170f5f1d273594042d38af84eabee9ea210332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 14/68] fix: a settings or blacklist file whose size is unknown
 is refused

---
 daemon/Blacklist.cpp | 5 +++++
 daemon/Settings.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/daemon/Blacklist.cpp b/daemon/Blacklist.cpp
index ad55c3f..6ba084a 100644
--- a/daemon/Blacklist.cpp
+++ b/daemon/Blacklist.cpp
@@ -69,6 +69,11 @@ void Blacklist::load()
             throw std::runtime_error("blacklist: could not open file");
         }
         int64_t size = ::lseek(i, 0, 2);
+        if (size < 0)
+        {
+            ::close(i);
+            throw std::runtime_error("blacklist: could not get the size of file");
+        }
 
         ::lseek(i, 0, 0);
         std::vector<char> buf;
diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 123a43e..8d7626e 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -192,6 +192,11 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
         throw std::runtime_error("settings: Could not open file: " + path);
     }
     int64_t size = ::lseek(i, 0, 2);
+    if (size < 0)
+    {
+        ::close(i);
+        throw std::runtime_error("settings: cannot get the size of file: " + path);
+    }
     if (size > 1024*1024)
     {
         ::close(i);
-- 
2.43.0


From 6baffb057fe5071eccb251d539094061eab53895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 15/68] fix: a counter is not deleted on the strength of an
 older counter's backup

---
 daemon/StatCounter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index c93a34f..98218f9 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -417,6 +417,15 @@ void StatCounter::purge(std::string rootPath)
 
         boost::system::error_code ec;
         boost::filesystem::create_hard_link(boost::filesystem::path(ptr->file->getPath()), boost::filesystem::path(counterBackupPath), ec);
+        //  The name may be taken by the backup of an earlier counter with the same name. That is not a backup of this
+        //  file, unless it is the very same file (an earlier removal did not complete.)
+        std::string firstBackupPath = counterBackupPath;
+        for (unsigned int n = 1; ec && boost::filesystem::exists(counterBackupPath)
+            && !boost::filesystem::equivalent(ptr->file->getPath(), counterBackupPath); ++n)
+        {
+            counterBackupPath = firstBackupPath + "." + boost::lexical_cast<std::string>(n);
+            boost::filesystem::create_hard_link(boost::filesystem::path(ptr->file->getPath()), boost::filesystem::path(counterBackupPath), ec);
+        }
         if (!boost::filesystem::exists(counterBackupPath))
         {
             throw std::runtime_error("We failed to create the backup counter hard link: " + counterBackupPath + " : " + ec.message());
-- 
2.43.0


From b68e61cc0ae3090f82eecb8ef5992299f8e0942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 16/68] fix: a counter that cannot be deleted does not stop the
 rest of the batch

---
 daemon/StatStore.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index aedaa6b..2d378da 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -510,7 +510,15 @@ public:
         Deleter::Work work(toDelete.front());
         toDelete.pop_front();
         //counter purging needs to know the stores root path to properly relocate counters for backup
-        work.counter->purge(rootPath_);
+        try
+        {
+            work.counter->purge(rootPath_);
+        }
+        catch (std::exception const &x)
+        {
+            //  the files that could not be backed up are still there; carry on with the rest of the batch
+            LogError << "Deleter: could not delete counter " << work.ctr << ": " << x.what();
+        }
         go();
     }
 
-- 
2.43.0


From f9cd0f7ada80e4e864bb0e45a492880e91d45219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:24 +0000
Subject: [PATCH 17/68] fix: deleting a counter backs up its pending samples
 and leaves no dangling files

---
 daemon/StatCounter.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 98218f9..a8eca2f 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -166,6 +166,13 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
     ++dequeueRecords_;
     --queueLenRecords_;
 
+    if (counters_.empty())
+    {
+        //  already purged
+        ++recordsRejected_;
+        return;
+    }
+
     time_t nowTime;
     if(isCollated_)
     {
@@ -332,9 +339,9 @@ void StatCounter::maybeShiftCollated(time_t t)
 
 bool StatCounter::shiftCollated(time_t t)
 {
-    if(collations_[0].time == 0)
+    if(collations_[0].time == 0 || counters_.empty())
     {
-        // Nothing to flush yet!
+        // Nothing to flush yet, or purged!
         return false;
     }
     else
@@ -382,6 +389,17 @@ void StatCounter::fullyShiftCollated()
 
 void StatCounter::purge(std::string rootPath)
 {
+    if (counters_.empty())
+    {
+        return;
+    }
+
+    if (isCollated_)
+    {
+        //  samples still being collated belong in the backup, too
+        fullyShiftCollated();
+    }
+
     std::string ext = ".bak";
     std::string backupDir = rootPath + ext;
     if(!boost::filesystem::exists(backupDir))
@@ -516,7 +534,7 @@ void StatCounter::forceFlush(boost::shared_ptr<IStatStore> const &store)
 boost::shared_ptr<istat::StatFile> StatCounter::pickStatFile(time_t startTime, time_t endTime, time_t &interval)
 {
     // validate requested time range is sane
-    if (endTime < startTime) {
+    if (endTime < startTime || counters_.empty()) {
         return boost::shared_ptr<istat::StatFile>((istat::StatFile*)0);
     }
 
-- 
2.43.0


From 6d3c11ba951c2f0d73a99c3419bd96ca09432d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 18/68] fix: the allocation strategy of mappings starts out
 defined

---
 lib/Mmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index d66512a..7489fd1 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -42,7 +42,8 @@ namespace istat
             nUnmaps_(0),
             nOpens_(0),
             nCloses_(0),
-            hint_(0)
+            hint_(0),
+            allocationStrategy_(allocateAll)
         {
         }
         int64_t nMaps_;
-- 
2.43.0


From 03f0f89fb9234a1a7485e23540f9bc24ca4e8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:56 +0000
Subject: [PATCH 19/68] fix: a backup must be the very file before the original
 is removed

---
 daemon/StatCounter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index a8eca2f..7c80aab 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -444,7 +444,8 @@ void StatCounter::purge(std::string rootPath)
             counterBackupPath = firstBackupPath + "." + boost::lexical_cast<std::string>(n);
             boost::filesystem::create_hard_link(boost::filesystem::path(ptr->file->getPath()), boost::filesystem::path(counterBackupPath), ec);
         }
-        if (!boost::filesystem::exists(counterBackupPath))
+        if (!boost::filesystem::exists(counterBackupPath)
+            || !boost::filesystem::equivalent(ptr->file->getPath(), counterBackupPath))
         {
             throw std::runtime_error("We failed to create the backup counter hard link: " + counterBackupPath + " : " + ec.message());
         }
-- 
2.43.0


From 5928e774bcf9244eca0487eb7ac0ae41d1117742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 20/68] fix: a sample the store refuses never disturbs the
 operation being counted

---
 daemon/LoopbackCounter.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/daemon/LoopbackCounter.cpp b/daemon/LoopbackCounter.cpp
index 285059c..88ab390 100644
--- a/daemon/LoopbackCounter.cpp
+++ b/daemon/LoopbackCounter.cpp
@@ -84,6 +84,20 @@ LoopbackCounter &LoopbackCounter::operator=(LoopbackCounter const &o)
     return *this;
 }
 
+//  The store may refuse a sample (disk full, bad permissions, ...). That must never
+//  disturb the operation that is being counted.
+static void recordNoThrow(IStatStore *ss, std::string const &name, double value)
+{
+    try
+    {
+        ss->record(name, value);
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "LoopbackCounter: cannot record" << name << ":" << x.what();
+    }
+}
+
 void LoopbackCounter::value(double value)
 {
     if (me_->isAggregate_)
@@ -92,7 +106,7 @@ void LoopbackCounter::value(double value)
     }
     else if (ss_)
     {
-        ss_->record(me_->name_, value);
+        recordNoThrow(ss_, me_->name_, value);
     }
 }
 
@@ -133,7 +147,7 @@ void LoopbackCounter::forceUpdates()
             if (TypeEvent == r->type_) {
                 __sync_add_and_fetch(&r->aggregate_, -v);
             }
-            LoopbackCounter::ss_->record(r->name_, (int64_t)v);
+            recordNoThrow(LoopbackCounter::ss_, r->name_, (int64_t)v);
         }
     }
 }
-- 
2.43.0


From daf1a50df711bdcbc059ad08654d08b4221325bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 21/68] fix: every failure of a query is answered, not only
 runtime errors

---
 daemon/RequestInFlight.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 645e71d..001f0b1 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -146,7 +146,7 @@ void RequestInFlight::go()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -263,7 +263,7 @@ void RequestInFlight::goProm()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -877,7 +877,7 @@ void RequestInFlight::generateCounterJson(boost::shared_ptr<IStatCounter> statCo
 
         strm_buffer_ << Json::FastWriter().write(jsonRoot);
         complete(200, "application/json");
-    } catch (std::runtime_error &re) {
+    } catch (std::exception const &re) {
         reportError(std::string("HTTP JSON exception:") + re.what());
     }
 }
@@ -909,7 +909,7 @@ void RequestInFlight::generateCounterCSV(boost::shared_ptr<IStatCounter> statCou
                 << "\r\n";
         }
         complete(200, "text/csv");
-    } catch (std::runtime_error &re) {
+    } catch (std::exception const &re) {
         reportError(std::string("HTTP CSV exception:") + re.what());
     }
 }
-- 
2.43.0


From c0d4f49ee5bc979c526f0000a082282e0bf51d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 22/68] fix: a counter that cannot be read never keeps a
 multi-counter query from completing

---
 daemon/RequestInFlight.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 001f0b1..5ddd24d 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -363,11 +363,20 @@ public:
         {
             grab aholdOf(strmLock);
             std::vector<istat::Bucket> buckets;
-            time_t normalized_start;
-            time_t normalized_end;
+            time_t normalized_start = start_;
+            time_t normalized_end = end_;
 
-            time_t interval;
-            counter->select(start_, end_, trailing_, buckets, normalized_start, normalized_end, interval, maxSamples_);
+            time_t interval = 0;
+            try
+            {
+                counter->select(start_, end_, trailing_, buckets, normalized_start, normalized_end, interval, maxSamples_);
+            }
+            catch (std::exception const &x)
+            {
+                //  the other counters must still be answered, and the request completed
+                LogError << "MultiCounterWorker: cannot read" << name << ":" << x.what();
+                buckets.clear();
+            }
 
             // this is crude, but effective.
             // all these values should be the same for all counters in the group
-- 
2.43.0


From 617c599ba1e44e52d061cec42dd52ab9c0c3d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 23/68] fix: a request body that is empty or nested too deeply
 is answered with an error

---
 daemon/RequestInFlight.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 5ddd24d..b462abc 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -452,13 +452,14 @@ void RequestInFlight::on_multigetBody()
     boost::shared_ptr<IStatStore> statStore(ss_->store());
     Json::Reader reader;
     Json::Value root;
-    if (!reader.parse(&*req_->bodyBegin(), &*req_->bodyEnd(), root, false))
-    {
-        reportError(reader.getFormattedErrorMessages(), 400);
-        return;
-    }
     try
     {
+        std::string body(req_->bodyBegin(), req_->bodyEnd());
+        if (!reader.parse(body, root, false))
+        {
+            reportError(reader.getFormattedErrorMessages(), 400);
+            return;
+        }
         time_t start = root["start"].asInt64();
         time_t stop = root["stop"].asInt64();
         size_t maxSamples = root["maxSamples"].asInt();
@@ -1051,9 +1052,18 @@ public:
 
     void go(std::string const &settings)
     {
-        if (!reader_.parse(&*rif_->req_->bodyBegin(), &*rif_->req_->bodyEnd(), root_, false))
+        try
         {
-            formatError(reader_.getFormattedErrorMessages());
+            std::string body(rif_->req_->bodyBegin(), rif_->req_->bodyEnd());
+            if (!reader_.parse(body, root_, false))
+            {
+                formatError(reader_.getFormattedErrorMessages());
+                return;
+            }
+        }
+        catch (std::exception const &x)
+        {
+            formatError(x.what());
             return;
         }
         if (!root_.isObject())
-- 
2.43.0


From 402ef37971fc18495eee3545f460c6b4d8bc565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 24/68] fix: a request consisting of an empty header is not
 parsed beyond its end

---
 daemon/HttpServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 5009933..6c304a5 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -181,7 +181,7 @@ void HttpRequest::on_header(boost::system::error_code const &err, size_t xfer)
     //  parse header
     bool first = true;
     size_t b = 0;
-    for (size_t p = 3, n = headerData_.size(); p != n-2; ++p)
+    for (size_t p = 3, n = headerData_.size(); p + 2 < n; ++p)
     {
         if (headerData_[p] == '\n' && headerData_[p-1] == '\r' && headerData_[p+1] != ' ')
         {
-- 
2.43.0


From b81850bb0c1ca2f0fcaac13abd81a105d74b27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 25/68] fix: an error reading a request body keeps its type and
 message

---
 daemon/HttpServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 6c304a5..056362f 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -161,7 +161,7 @@ void HttpRequest::readBody()
     catch (std::exception const &x)
     {
         LogWarning << "exception calling async_read() in readBody():" << x.what();
-        throw x;
+        throw;
     }
 }
 
-- 
2.43.0


From 2d94616bc2a734262562f9b0d2843beba1d1e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 26/68] fix: a counter name with an empty part between carets
 does not hang the parser

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index fe210a5..e18c9d2 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -405,8 +405,8 @@ namespace istat
             {
                 //  don't allow empty substrings
                 osubs.push_back(base + istr.substr(pos+1, next-(pos+1)));
-                pos = next;
             }
+            pos = next;
         }
     }
 
-- 
2.43.0


From 8dd40db121bf9a2bea26f48f30c40adaef7363c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 27/68] fix: an answer to a connection that was closed
 meanwhile never stops the operation behind it

---
 daemon/AdminServer.cpp          |  9 +--------
 daemon/DeleteCountersWorker.cpp |  4 ++--
 daemon/DeletePatternsWorker.cpp |  4 ++--
 daemon/EagerConnection.cpp      | 19 +++++++++++++++++++
 daemon/EagerConnection.h        |  4 ++++
 5 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index b287116..a3acc3d 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -46,14 +46,7 @@ private:
         virtual void on_complete()
         {
             LogSpam << "AdminConnection::GenericComplete::on_complete()";
-            if (ec_->opened())
-            {
-                ec_->writeOut("ok\r\n");
-            }
-            else
-            {
-                LogWarning << "AdminConnection::GenericComplete: can't write \"ok\" to closed connection";
-            }
+            ec_->reply("ok\r\n");
             delete this;
         }
 
diff --git a/daemon/DeleteCountersWorker.cpp b/daemon/DeleteCountersWorker.cpp
index 2366cd0..58e9707 100644
--- a/daemon/DeleteCountersWorker.cpp
+++ b/daemon/DeleteCountersWorker.cpp
@@ -7,7 +7,7 @@ void DeleteCountersWorker::go()
     LogNotice << "DeleteCountersWorker::go() deleting a counter: T-" << counters_.size();
     if (counters_.empty())
     {
-        conn_->writeOut(std::string("ok\r\n"));
+        conn_->reply(std::string("ok\r\n"));
         delete this;
         return;
     }
@@ -24,7 +24,7 @@ void DeleteCountersWorker::on_complete()
 
 void DeleteCountersWorker::delete_one_counter(std::string const &ctr)
 {
-    conn_->writeOut(ctr + "\r\n");
+    conn_->reply(ctr + "\r\n");
     statServer_->deleteCounter(ctr, this);
 }
 
diff --git a/daemon/DeletePatternsWorker.cpp b/daemon/DeletePatternsWorker.cpp
index d9a2006..29cc316 100644
--- a/daemon/DeletePatternsWorker.cpp
+++ b/daemon/DeletePatternsWorker.cpp
@@ -7,7 +7,7 @@ void DeletePatternsWorker::go()
     LogNotice << "DeletePatternsWorker::go() deleting a pattern: T-" << patterns_.size();
     if (patterns_.empty())
     {
-        conn_->writeOut(std::string("ok\r\n"));
+        conn_->reply(std::string("ok\r\n"));
         delete this;
         return;
     }
@@ -24,7 +24,7 @@ void DeletePatternsWorker::on_complete()
 
 void DeletePatternsWorker::delete_one_pattern(std::string const &pattern)
 {
-    conn_->writeOut(pattern + "\r\n");
+    conn_->reply(pattern + "\r\n");
     statServer_->deletePattern(pattern, this);
 }
 
diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index c85cb44..3f3e5a5 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -23,6 +23,25 @@ struct EagerConnectionEnabler : public EagerConnection {
        EagerConnectionEnabler(boost::asio::io_service &svc) : EagerConnection(svc) {}
 };
 
+bool ConnectionInfo::reply(std::string const &str)
+{
+    try
+    {
+        if (opened())
+        {
+            writeOut(str);
+            return true;
+        }
+    }
+    catch (std::runtime_error const &x)
+    {
+        //  closed by another thread in the meantime
+        LogDebug << "ConnectionInfo::reply():" << x.what();
+    }
+    LogWarning << "can't write answer to closed connection" << endpointName();
+    return false;
+}
+
 boost::shared_ptr<ConnectionInfo> EagerConnection::create(boost::asio::io_service &svc)
 {
     return boost::make_shared<EagerConnectionEnabler>(boost::ref(svc));
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 6db0fb6..8d98963 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -37,6 +37,10 @@ public:
     virtual size_t writeOut(void const *data, size_t size) = 0;
     virtual size_t writeOut(std::string const &str) = 0;
 
+    //  like writeOut(), for answers that may arrive after the peer has gone away:
+    //  returns false instead of throwing when the connection is no longer open
+    bool reply(std::string const &str);
+
     virtual ~ConnectionInfo() {}
     boost::signals2::signal<void ()> onConnect_;
     boost::signals2::signal<void ()> onDisconnect_;
-- 
2.43.0


From 542201e61752bc7c972b7c3c6a395f6e1c950b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 28/68] fix: flush.setting and load.setting are answered once

---
 daemon/AdminServer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index a3acc3d..505cc55 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -435,6 +435,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
         }
         ISettingsFactory &sfac = istat::Env::get<ISettingsFactory>();
         sfac.flush_one(args.front(), new GenericComplete(ec_));
+        return;
     }
     if (cmd == "load.setting")
     {
@@ -445,6 +446,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
         }
         ISettingsFactory &sfac = istat::Env::get<ISettingsFactory>();
         sfac.reloadSettings(args.front(), new GenericComplete(ec_));
+        return;
     }
     if (cmd == "quit")
     {
-- 
2.43.0


From f5ffe06de6be63fe0dde798f51bc4e12ef1c7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 29/68] fix: settings names given to the admin port cannot
 contain a path

---
 daemon/AdminServer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 505cc55..6bd2ba1 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -433,6 +433,11 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             ec_->writeOut(std::string("huh? flush.setting needs exactly one settings file name. (no path)\r\n"));
             return;
         }
+        if (!istat::is_valid_settings_name(args.front()))
+        {
+            ec_->writeOut("huh? invalid settings name\r\n");
+            return;
+        }
         ISettingsFactory &sfac = istat::Env::get<ISettingsFactory>();
         sfac.flush_one(args.front(), new GenericComplete(ec_));
         return;
@@ -444,6 +449,11 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             ec_->writeOut(std::string("huh? load.setting needs exactly one settings file name. (no path)\r\n"));
             return;
         }
+        if (!istat::is_valid_settings_name(args.front()))
+        {
+            ec_->writeOut("huh? invalid settings name\r\n");
+            return;
+        }
         ISettingsFactory &sfac = istat::Env::get<ISettingsFactory>();
         sfac.reloadSettings(args.front(), new GenericComplete(ec_));
         return;
-- 
2.43.0


From cc7ce2d8610b9545f2a27dcfff525bda1be4781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 30/68] fix: a bad argument of the admin command debug is
 reported without reading beyond the arguments

---
 daemon/AdminServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 6bd2ba1..726edd6 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -322,7 +322,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
                         }
                         else
                         {
-                            throw std::runtime_error("Should be 'on' or 'off': " + args[2]);
+                            throw std::runtime_error("Should be 'on' or 'off': " + args[1]);
                         }
                     }
                     ec_->writeOut(opt->name() + ": " + (opt->enabled() ? "on" : "off") + "\r\n");
-- 
2.43.0


From 333915adb39a2727d336c09dcbda0c390ed3b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 31/68] fix: a bad argument of the admin command faketime is
 answered with an error

---
 daemon/AdminServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 726edd6..aad6583 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -350,8 +350,16 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             ec_->writeOut("huh? requires one argument (timestamp)\r\n");
             return;
         }
-        time_t t = boost::lexical_cast<time_t>(args[0]);
-        istat::Env::get<istat::FakeTime>().set(t);
+        try
+        {
+            time_t t = boost::lexical_cast<time_t>(args[0]);
+            istat::Env::get<istat::FakeTime>().set(t);
+        }
+        catch (boost::bad_lexical_cast const &x)
+        {
+            ec_->writeOut(std::string("huh? ") + x.what() + "\r\n");
+            return;
+        }
         ec_->writeOut("ok\r\n");
         return;
     }
-- 
2.43.0


From d0adc3cc8ea097d6712fc7558194c29f9a4c16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 32/68] fix: the admin command purge is refused when there is
 no stat server

---
 daemon/AdminServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index aad6583..276ac13 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -277,6 +277,11 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
     }
     if (cmd == "purge")
     {
+        if (!as_->ssp_)
+        {
+            ec_->writeOut("huh? no stat server to purge.\r\n");
+            return;
+        }
         try
         {
             size_t maxCnt = (args.size() >= 1) ? boost::lexical_cast<size_t>(args[0]) : 0;
-- 
2.43.0


From d30334a352ab387535a634d537230ef3f9c02852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 33/68] fix: admin commands arriving in one large piece are not
 damaged

---
 daemon/AdminServer.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 276ac13..dd6b252 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -152,15 +152,7 @@ void AdminConnection::on_data()
     char buf[1026];
 again:
     size_t sz = ec_->peekIn(buf, 1024);
-    if (sz == 1024)
-    {
-        buf[1024] = '\n';
-        buf[0] = 0;
-    }
-    else
-    {
-        buf[sz] = 0;
-    }
+    buf[sz] = 0;
     for (size_t i = 0; i != sz; ++i)
     {
         if (buf[i] == '\n')
-- 
2.43.0


From 76ade6b99e17ffe6c01d84d0e0dbc72ab392b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 34/68] fix: a key refresh that is not scheduled does not count
 as scheduled

---
 daemon/StatStore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 2d378da..f32bfc8 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -643,6 +643,7 @@ void StatStore::scheduleRefresh()
     else
     {
         LogNotice << "StatStore::scheduleRefresh() - Did not schedule a refresh. There are already " << queuedRefreshes_ << "/" << MAX_QUEUED_KEY_REFRESHES << " scheduled.";
+        __sync_fetch_and_sub(&queuedRefreshes_, 1);
     }
 }
 
-- 
2.43.0


From 80977a1105fa48812ed43ba265c21558e262e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 35/68] fix: a directory that vanishes while empty directories
 are pruned does not end the pruning

---
 daemon/StatStore.cpp | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f32bfc8..9f60a39 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -324,38 +324,36 @@ void StatStore::pruneEmptyDirs(const std::string& purgePath)
 {
     LogSpam << "StatStore::pruneEmptyDirs(" << purgePath << ")";
     grab aholdof(pruneEmptyDirsMutex_);
-    boost::filesystem::directory_iterator it(purgePath);
-    boost::filesystem::directory_iterator end = boost::filesystem::directory_iterator();
-
-    while(it != end)
+    try
     {
-        const boost::filesystem::path& path = it->path();
+        boost::filesystem::directory_iterator it(purgePath);
+        boost::filesystem::directory_iterator end = boost::filesystem::directory_iterator();
 
-        if (boost::filesystem::is_directory(path))
+        while(it != end)
         {
-            const boost::filesystem::path del = path;
-            ++it;
+            const boost::filesystem::path& path = it->path();
+
+            if (boost::filesystem::is_directory(path))
+            {
+                const boost::filesystem::path del = path;
+                ++it;
 
-            pruneEmptyDirs(del.string());
+                pruneEmptyDirs(del.string());
+            }
+            else
+            {
+                ++it;
+            }
         }
-        else
+        if (boost::filesystem::is_directory(purgePath) && boost::filesystem::is_empty(purgePath))
         {
-            ++it;
+            LogNotice << "Pruning an empty directory: " << purgePath;
+            boost::filesystem::remove(purgePath);
         }
     }
-    if (boost::filesystem::is_directory(purgePath) && boost::filesystem::is_empty(purgePath))
+    catch (const boost::filesystem::filesystem_error & ex)
     {
-        const boost::filesystem::path del = purgePath;
-
-        try
-        {
-            LogNotice << "Pruning an empty directory: " << del;
-            boost::filesystem::remove(del);
-        }
-        catch (const boost::filesystem::filesystem_error & ex)
-        {
-            LogWarning << "Couldnt delete empty directory " << del << " because " << ex.what();
-        }
+        LogWarning << "Couldnt prune directory " << purgePath << " because " << ex.what();
     }
 }
 
-- 
2.43.0


From 70f2fa40b12179fd3c9578894715ff459b61d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 36/68] fix: creating counters without recursion never locks
 two shards at once

---
 daemon/StatStore.cpp | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 9f60a39..2cf90b1 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -205,23 +205,34 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             LogSpam << "StatStore::openCounter(" << name << ") ... skipping creation";
             return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
         }
-        if (!recursivelyCreateCounters_) {
-            // Check if name conflicts with an existing counter
-            std::string xform_prefix(xform);
-            while(stripext(xform_prefix)) {
-                if (xform_prefix != xform) {
-                    grab aholdof(counterShards_.lock(xform_prefix));
-                    CounterMap &cnts(counterShards_.map(xform_prefix));
-                    if (cnts.find(xform_prefix) != cnts.end()) {
-                        LogSpam << "StatStore::openCounter(" << name << ") ... conflicting with " << xform_prefix;
-                        return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
-                    }
-                }
-                // This should never happend, but in case of an infinite loop
-                else {
-                    break;
+    }
+    if (!recursivelyCreateCounters_) {
+        // Check if name conflicts with an existing counter. No other shard may be locked
+        // meanwhile, or two threads doing this for names in each other's shard would deadlock.
+        std::string xform_prefix(xform);
+        while(stripext(xform_prefix)) {
+            if (xform_prefix != xform) {
+                grab aholdof(counterShards_.lock(xform_prefix));
+                CounterMap &cnts(counterShards_.map(xform_prefix));
+                if (cnts.find(xform_prefix) != cnts.end()) {
+                    LogSpam << "StatStore::openCounter(" << name << ") ... conflicting with " << xform_prefix;
+                    return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
                 }
             }
+            // This should never happend, but in case of an infinite loop
+            else {
+                break;
+            }
+        }
+    }
+    {
+        grab aholdof(counterShards_.lock(xform));
+        CounterMap &counters(counterShards_.map(xform));
+        CounterMap::iterator ptr(counters.find(xform));
+        if (ptr != counters.end())
+        {
+            //  created by another thread in the meantime
+            return (*ptr).second;
         }
         //  I hold the lock while creating the file, which is sub-optimal
         //  but avoids racing.
-- 
2.43.0


From 627c36fffd939bf5ea24da68a3be259be2c6fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:32 +0000
Subject: [PATCH 37/68] fix: deleting counters of a server without a store is
 answered

---
 daemon/IStatStore.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/daemon/IStatStore.h b/daemon/IStatStore.h
index 1447920..5f3fce4 100644
--- a/daemon/IStatStore.h
+++ b/daemon/IStatStore.h
@@ -13,6 +13,7 @@
 #include <boost/asio/strand.hpp>
 #include <boost/enable_shared_from_this.hpp>
 
+#include "IComplete.h"
 #include "Signal.h"
 
 struct UniqueId
@@ -24,7 +25,6 @@ struct UniqueId
     std::string str() const;
 };
 
-class IComplete;
 class Deleter;
 
 class IStatStore : public boost::noncopyable, public boost::enable_shared_from_this<IStatStore>
@@ -78,14 +78,16 @@ public:
 #endif
     inline void listMatchingCounters(std::string const &pat, std::list<std::pair<std::string, CounterResponse> > &oList) {}
     inline std::string const &getLocation() const { static std::string ss; return ss; }
-    inline void flushAll(IComplete *cmp) {}
+    inline void flushAll(IComplete *cmp) { complete(cmp); }
     inline void getUniqueId(UniqueId &out) { out = UniqueId(); }
     inline void setAggregateCount(int ac) {}
-    inline void deleteCounter(std::string const &, Deleter* deleter, IComplete *cmp) {}
-    inline void deleteCounter(std::string const &, IComplete *cmp) {}
-    inline void deletePattern(std::string const &, IComplete *cmp) {}
+    inline void deleteCounter(std::string const &, Deleter* deleter, IComplete *cmp) { complete(cmp); }
+    inline void deleteCounter(std::string const &, IComplete *cmp) { complete(cmp); }
+    inline void deletePattern(std::string const &, IComplete *cmp) { complete(cmp); }
     inline void pruneEmptyDirsNow(const std::string &purgePath) {}
     inline void refreshKeys() {}
+private:
+    static void complete(IComplete *cmp) { if (cmp) { cmp->on_complete(); } }
 };
 
 #endif  //  daemon_IStatStore_h
-- 
2.43.0


From 7f265dd3a844e6fa57b65364e3c6c991ecc4e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:32 +0000
Subject: [PATCH 38/68] fix: a counter that cannot be flushed does not keep
 flushing all counters from completing

---
 daemon/StatStore.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 2cf90b1..69a1f00 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -680,8 +680,16 @@ public:
     {
         boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());
         ptrs.pop_front();
-        // Force, so collations are fully shifted.
-        ptr->counter()->forceFlush(ss_);
+        try
+        {
+            // Force, so collations are fully shifted.
+            ptr->counter()->forceFlush(ss_);
+        }
+        catch (std::exception const &x)
+        {
+            //  carry on with the other counters, so that the flush is completed
+            LogError << "Flusher: could not flush a counter: " << x.what();
+        }
         go();
     }
     boost::shared_ptr<IStatStore> ss_;
-- 
2.43.0


From c252a21e1488042adbcef60df45f173a5db6905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 39/68] fix: consuming input of a connection that is closed at
 the same time does not abort

---
 daemon/EagerConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 3f3e5a5..7405b7a 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -195,11 +195,11 @@ size_t EagerConnection::peekIn(void *ptr, size_t maxSize)
 void EagerConnection::consume(size_t n)
 {
     LogSpam << "EagerConnection::consume(" << n << ")";
+    grab aholdof(mutex_);
     if (!opened_)
     {
         return;
     }
-    grab aholdof(mutex_);
     if (n > 0)
     {
         assert(n <= incoming_.size());
-- 
2.43.0


From 94ce745219518f54bf4aa745a561eb01fbb3a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 40/68] fix: a forward connection that closes while data is
 sent does not stop forwarding

---
 daemon/StatServer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 107e9a2..73ddbfb 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -738,9 +738,15 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         for (size_t i = 0; i < count; ++i) {
             std::string str(ss[i].str());
             if (!str.empty()) {
-                size_t pending = conns[i]->writeOut(str);
-                if (agentFlushRequest != NULL) {
-                    agentFlushRequest->add(i, pending);
+                try {
+                    size_t pending = conns[i]->writeOut(str);
+                    if (agentFlushRequest != NULL) {
+                        agentFlushRequest->add(i, pending);
+                    }
+                }
+                catch (std::runtime_error const &x) {
+                    //  closed since it was looked up; the other connections still get their share
+                    LogError << "StatServer: agent forward connection is closed and data dropped:" << x.what();
                 }
             }
         }
-- 
2.43.0


From 60ccf2d02369835064815eea125b0359351ea67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 41/68] fix: an admin command that fails is answered and does
 not reach the event loop

---
 daemon/AdminServer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index dd6b252..3a14a33 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -158,7 +158,15 @@ again:
         if (buf[i] == '\n')
         {
             ec_->consume(i + 1);
-            doCmd(std::string(&buf[0], &buf[i]));
+            try
+            {
+                doCmd(std::string(&buf[0], &buf[i]));
+            }
+            catch (std::exception const &x)
+            {
+                LogError << "AdminConnection: exception in command:" << x.what();
+                ec_->reply(std::string("huh? ") + x.what() + "\r\n");
+            }
             goto again;
         }
     }
-- 
2.43.0


From 46cf7504831a08a1174d438c0a9c44249e8077c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 42/68] fix: a failure while accepting a connection does not
 reach the event loop

---
 daemon/EagerConnectionFactory.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/daemon/EagerConnectionFactory.cpp b/daemon/EagerConnectionFactory.cpp
index 2da9cee..ad6a8ad 100644
--- a/daemon/EagerConnectionFactory.cpp
+++ b/daemon/EagerConnectionFactory.cpp
@@ -83,7 +83,6 @@ void EagerConnectionFactory::startAccept()
     catch (...)
     {
         LogError << "EagerConnectionFactory::startAccept(): unknown exception";
-        throw;
     }
 }
 
@@ -112,7 +111,6 @@ void EagerConnectionFactory::on_accept(boost::system::error_code const &err)
     catch (...)
     {
         LogError << "EagerConnectionFactory::on_accept(" << err << "): unknown exception";
-        throw;
     }
 }
 
-- 
2.43.0


From 320e9e079f043806db9e31172ce7b5581136a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 43/68] fix: a log file that cannot be opened does not end log
 rollover

---
 daemon/main.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/daemon/main.cpp b/daemon/main.cpp
index a0c17c8..935d3b0 100644
--- a/daemon/main.cpp
+++ b/daemon/main.cpp
@@ -375,7 +375,15 @@ private:
         {
             LogSpam << "threadFunc() calling rollOver()" << getpid();
         }
-        istat::LogConfig::rollOver();
+        try
+        {
+            istat::LogConfig::rollOver();
+        }
+        catch (std::exception const &x)
+        {
+            //  try again next time
+            std::cerr << "Could not roll over the log file: " << x.what() << std::endl;
+        }
         scheduleNext();
     }
 
-- 
2.43.0


From 37b19c5e7f28ba70c69224a8b2a99a3f440d9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 44/68] fix: a replica connection that closes while connecting
 does not reach the event loop

---
 daemon/ReplicaOf.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/daemon/ReplicaOf.cpp b/daemon/ReplicaOf.cpp
index dd11ed5..defe29e 100644
--- a/daemon/ReplicaOf.cpp
+++ b/daemon/ReplicaOf.cpp
@@ -79,8 +79,15 @@ void ReplicaOf::on_connection()
     {
         LogNotice << "replica connection from" << conn_->endpointName() << "my uid" << uid.str();
     }
-    PduConnect::make(buf, 1024, sz, ReplicateProtocolVersion1, uid);
-    emit(buf, sz);
+    try
+    {
+        PduConnect::make(buf, 1024, sz, ReplicateProtocolVersion1, uid);
+        emit(buf, sz);
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "ReplicaOf::on_connection():" << x.what();
+    }
 }
 
 void ReplicaOf::emit(void const *data, size_t sz)
-- 
2.43.0


From 4aa35d0ffad1913200c959e75888bad4d0dde0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 45/68] fix: replica connections are released when they end

---
 daemon/EagerConnection.cpp | 8 ++++++++
 daemon/EagerConnection.h   | 2 ++
 daemon/ReplicaServer.cpp   | 8 +++++---
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 7405b7a..17083e8 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -265,6 +265,14 @@ void EagerConnection::abort()
     onDisconnect_();
 }
 
+void EagerConnection::hangup()
+{
+    LogSpam << "EagerConnection::hangup()";
+    socket_.close();
+    grab aholdof(mutex_);
+    incoming_.clear();
+}
+
 tcp::endpoint EagerConnection::endpoint() const
 {
     return endpoint_;
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 8d98963..75fcb98 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -69,6 +69,8 @@ public:
     size_t writeOut(void const *data, size_t size);
     size_t writeOut(std::string const &str);
     void abort();
+    //  make the connection end as if the peer had closed it
+    void hangup();
     boost::asio::ip::tcp::endpoint endpoint() const;
     //  if there's some data, call onData_
     void startRead();
diff --git a/daemon/ReplicaServer.cpp b/daemon/ReplicaServer.cpp
index 3f06671..77ae3a6 100644
--- a/daemon/ReplicaServer.cpp
+++ b/daemon/ReplicaServer.cpp
@@ -31,7 +31,8 @@ public:
     void go()
     {
         pduSrc_->onPdu_.connect(boost::bind(&ReplicaConnection::on_pdu, this));
-        conn_->onDisconnect_.connect(boost::bind(&ReplicaConnection::on_disconnect, this));
+        //  the reader closes the connection (which forgets all slots of it) before it tells me
+        pduSrc_->onDeleted_.connect(boost::bind(&ReplicaConnection::on_disconnect, this));
         conn_->asEagerConnection()->startRead();
     }
 
@@ -54,7 +55,7 @@ public:
         catch (PduProtocolException const &x)
         {
             LogError << "Protocol Exception from" << conn_->endpointName() << ":" << x.what();
-            conn_->close();
+            conn_->asEagerConnection()->hangup();
         }
     }
 
@@ -111,7 +112,8 @@ public:
 
     void on_disconnect()
     {
-        self_ = boost::shared_ptr<ReplicaConnection>((ReplicaConnection *)0);
+        boost::shared_ptr<ReplicaConnection> self;
+        self.swap(self_);
     }
 
     boost::shared_ptr<ReplicaConnection> self_;
-- 
2.43.0


From 30b710a66f62c2e68822585c4b78adbfe93d361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 46/68] fix: an answer to a replica connection that is closed
 at the same time does not reach the event loop

---
 daemon/ReplicaServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/ReplicaServer.cpp b/daemon/ReplicaServer.cpp
index 77ae3a6..9fe282a 100644
--- a/daemon/ReplicaServer.cpp
+++ b/daemon/ReplicaServer.cpp
@@ -52,7 +52,7 @@ public:
                 proto_.onPdu(pdu.type, pdu.size, pdu.size ? &pdu.payload[0] : NULL);
             }
         }
-        catch (PduProtocolException const &x)
+        catch (std::exception const &x)
         {
             LogError << "Protocol Exception from" << conn_->endpointName() << ":" << x.what();
             conn_->asEagerConnection()->hangup();
-- 
2.43.0


From e5b6976b6388853034f09e2b76fa46b61ca1a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 47/68] fix: a replica connection that has ended is not called
 any more

---
 daemon/ReplicaServer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/ReplicaServer.cpp b/daemon/ReplicaServer.cpp
index 9fe282a..4193897 100644
--- a/daemon/ReplicaServer.cpp
+++ b/daemon/ReplicaServer.cpp
@@ -39,6 +39,7 @@ public:
     ~ReplicaConnection()
     {
         rs_->numConnectionsGauge_.value(istat::atomic_add(&rs_->numConnections_, -1));
+        iterate_.disconnect();
         delete pduSrc_;
     }
 
-- 
2.43.0


From 25c7082883b0c0f74a336fad93f188d77dd88e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 48/68] fix: a replica message that is too short is rejected

---
 daemon/PduProtocol.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/PduProtocol.h b/daemon/PduProtocol.h
index 818d766..c09e56a 100644
--- a/daemon/PduProtocol.h
+++ b/daemon/PduProtocol.h
@@ -56,6 +56,10 @@ public:
     void onPdu(uint32_t type, size_t size, void const *data)
     {
         assert(type == PduType::Id);
+        if (size < sizeof(PduType))
+        {
+            throw PduProtocolException("Too short PDU");
+        }
         (*call_)(*(PduType const *)data);
     }
     template<typename Arg> static inline PduCallable<PduType> *make(Arg const &arg)
-- 
2.43.0


From 48f648706a5a6419615fc7399f94eb2c4fbbf761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 49/68] fix: text in a replica message is not read beyond the
 message

---
 daemon/ReplicaServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/ReplicaServer.cpp b/daemon/ReplicaServer.cpp
index 4193897..c3e465c 100644
--- a/daemon/ReplicaServer.cpp
+++ b/daemon/ReplicaServer.cpp
@@ -50,7 +50,9 @@ public:
             PduHeader pdu;
             while (pduSrc_->nextPdu(pdu))
             {
-                proto_.onPdu(pdu.type, pdu.size, pdu.size ? &pdu.payload[0] : NULL);
+                //  text at the end of the message ends inside of the buffer, whatever was sent
+                pdu.payload.push_back(0);
+                proto_.onPdu(pdu.type, pdu.size, &pdu.payload[0]);
             }
         }
         catch (std::exception const &x)
-- 
2.43.0


From 6054d25142e3e5f098b871416525e3f569695f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:38 +0000
Subject: [PATCH 50/68] fix: a counter that fails does not disturb the event
 loop

---
 daemon/StatStore.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 69a1f00..b6e4cc2 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -112,6 +112,32 @@ bool StatStore::hasAvailableSpace()
     return mm_->availableSpace(dir) >= minimumRequiredSpace_;
 }
 
+//  Work that runs on the strand of a counter. A counter that fails (disk full, damaged file, ...)
+//  must not disturb the event loop.
+static void recordSample(boost::shared_ptr<IStatCounter> const &counter, time_t time, double value, double valueSq, double min, double max, size_t cnt)
+{
+    try
+    {
+        counter->record(time, value, valueSq, min, max, cnt);
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "StatStore: could not record a sample:" << x.what();
+    }
+}
+
+static void flushCounter(boost::shared_ptr<IStatCounter> const &counter, boost::shared_ptr<IStatStore> const &store)
+{
+    try
+    {
+        counter->flush(store);
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "StatStore: could not flush a counter:" << x.what();
+    }
+}
+
 void StatStore::record(std::string const &ctr, double value)
 {
     time_t t;
@@ -141,9 +167,9 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
             ++IStatCounter::enqueueRecords_;
             ++IStatCounter::queueLenRecords_;
 #if BOOST_VERSION >= 106700
-            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
+            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&recordSample, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #else
-            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
+            svc_.post(asyncCounter->strand_.wrap(boost::bind(&recordSample, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #endif
         }
         if (!stripext(cname))
@@ -277,9 +303,9 @@ void StatStore::flushOne(Shards::iterator &iterator)
     }
     LogSpam << "StatStore::flushOne(" << key << ")";
 #if BOOST_VERSION >= 106700
-    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
+    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&flushCounter, value->counter(), shared_from_this())));
 #else
-    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
+    svc_.post(value->strand_.wrap(boost::bind(&flushCounter, value->counter(), shared_from_this())));
 #endif
 }
 
-- 
2.43.0


From 5b7b713be795d2c237c6653f3893c22b1d7fdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 51/68] fix: read the clock before the time is used for the
 expiry of a served file

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index b462abc..4710742 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -581,9 +581,9 @@ void RequestInFlight::serveFile(std::string const &name)
     time_t modTime = st.st_mtime;
     int64_t fileSize = st.st_size;
     time_t now;
+    time(&now);
     time_t expires = now;
     bool cacheAll = false;
-    time(&now);
     std::string etag(boost::lexical_cast<std::string>(modTime) + "_" + boost::lexical_cast<std::string>(fileSize));
     //  todo: maybe do some if-none-match optimization here
     hdrs_["Etag"] = etag;
-- 
2.43.0


From 3c2f8a6443adc4446a5e931ab54be8e00c859255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 52/68] fix: a query for an empty range answers with the
 requested range, not with stack garbage

---
 daemon/RequestInFlight.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 4710742..d329f52 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -850,8 +850,9 @@ void RequestInFlight::generateCounterJson(boost::shared_ptr<IStatCounter> statCo
 {
     std::vector<istat::Bucket> buckets;
     time_t intervalTime = 10;
-    time_t normalizedStart;
-    time_t normalizedEnd;
+    //  select() leaves these alone when the range is empty
+    time_t normalizedStart = startTime;
+    time_t normalizedEnd = endTime;
 
     try
     {
@@ -896,8 +897,9 @@ void RequestInFlight::generateCounterCSV(boost::shared_ptr<IStatCounter> statCou
 {
     std::vector<istat::Bucket> buckets;
     time_t intervalTime = 10;
-    time_t normalizedStart;
-    time_t normalizedEnd;
+    //  select() leaves these alone when the range is empty
+    time_t normalizedStart = startTime;
+    time_t normalizedEnd = endTime;
     try
     {
         statCounter->select(startTime, endTime, trailing != 0, buckets, normalizedStart, normalizedEnd, intervalTime, sampleCount);
-- 
2.43.0


From 68cf530f746eceab259368ae7141b21fd7061165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 53/68] fix: a log file that cannot be opened does not throw
 into the code that logs

---
 lib/LogFormatterLog.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/LogFormatterLog.cpp b/lib/LogFormatterLog.cpp
index ebcf353..05aeb83 100644
--- a/lib/LogFormatterLog.cpp
+++ b/lib/LogFormatterLog.cpp
@@ -2,6 +2,7 @@
 #include <istat/Log.h>
 #include <boost/lexical_cast.hpp>
 #include <boost/date_time/posix_time/posix_time.hpp>
+#include <iostream>
 #include <time.h>
 #include <unistd.h>
 #include <stdio.h>
@@ -18,8 +19,16 @@ namespace istat
             std::string s(boost::posix_time::to_iso_extended_string(boost::posix_time::second_clock::local_time()));
             s += pidstr;
             s += ssbuf->str();
-            LogConfig::outputToFile(level_, s.c_str(), s.size());
             delete ssbuf;
+            try
+            {
+                LogConfig::outputToFile(level_, s.c_str(), s.size());
+            }
+            catch (std::exception const &x)
+            {
+                //  the code that logs can do nothing about it
+                std::cerr << x.what() << std::endl << s;
+            }
             ssbuf = 0;
          }
     }
-- 
2.43.0


From 36ff3c27809b8a1610db34b8900cf5a258aa5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 54/68] fix: a file error while a counter is closed does not
 throw out of its destructor

---
 daemon/StatCounter.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 7c80aab..3dba46c 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -133,16 +133,23 @@ StatCounter::~StatCounter()
     if(isCollated_)
     {
         time_t t = istat::istattime(0);
-        if(t - collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time > 60 * 5)
+        try
         {
-            // Must be recording in the past, or there was a fake time
-            // but it was recently destructed. Just force shift ahead
-            // by the collation length.
-            fullyShiftCollated();
+            if(t - collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time > 60 * 5)
+            {
+                // Must be recording in the past, or there was a fake time
+                // but it was recently destructed. Just force shift ahead
+                // by the collation length.
+                fullyShiftCollated();
+            }
+            else
+            {
+                maybeShiftCollated(t + (collationInterval_ * BUCKETS_PER_COLLATION_WINDOW / 2));
+            }
         }
-        else
+        catch (std::exception const &x)
         {
-            maybeShiftCollated(t + (collationInterval_ * BUCKETS_PER_COLLATION_WINDOW / 2));
+            LogError << "Could not write collated samples when closing a counter:" << x.what();
         }
     }
 }
-- 
2.43.0


From fbdb0a5fefd7489be2a8528d03644b26abb89b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 55/68] fix: a page that was unmapped is not used again when
 mapping the next one fails

---
 lib/StatFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1a30565..1bec1e5 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -481,6 +481,8 @@ namespace istat
         if (pages[cacheIndex].ptr != 0)
         {
             mm_->unmap(pages[cacheIndex].ptr, fileHeader_->page_size);
+            //  mapping the new page may fail
+            pages[cacheIndex].ptr = 0;
         }
         recordPageMiss();
         void *mapped = mm_->map(fd_, pageIndex * fileHeader_->page_size, fileHeader_->page_size, toWrite);
-- 
2.43.0


From c169f1e21c1ca08410eaf4edd984301723d3a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 56/68] fix: a failed HTTP request does not drop body handlers
 connected by its error handler

---
 daemon/HttpServer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 056362f..2d1b0b4 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -292,10 +292,12 @@ void HttpRequest::error()
 {
     LogSpam << "HttpRequest::error()";
     ++hs_->sInfo_.numErrors;
-    onError_();
-    disconnect_all_slots(onError_);
+    //  The error handler may post the request on to another thread, which may
+    //  wait for the body again: don't drop handlers that are connected later.
     disconnect_all_slots(onBody_);
     disconnect_all_slots(onHeader_);
+    onError_();
+    disconnect_all_slots(onError_);
 }
 
 void HttpRequest::appendReply(char const *data, size_t size)
-- 
2.43.0


From 63ab8af73de2649b9094af64f37c63f71b61866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:26 +0000
Subject: [PATCH 57/68] fix: a short line in a UDP packet is not glued to the
 line after it

---
 daemon/StatServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 73ddbfb..b41407d 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -869,9 +869,9 @@ void StatServer::on_udp_recv(boost::system::error_code const &err, size_t bytes)
                     if (off > base + 1)
                     {
                         std::string cmd(&udpBuffer_[base], &udpBuffer_[off]);
-                        base = off + 1;
                         handleCmd(cmd, udpEndpoint_);
                     }
+                    base = off + 1;
                 }
                 ++off;
             }
-- 
2.43.0


From 494e7436a6ef38699668ad51ae9328f7749aca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:47 +0000
Subject: [PATCH 58/68] fix: an admin command line longer than 1024 characters
 is handled

---
 daemon/AdminServer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 3a14a33..1f034cc 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -149,10 +149,9 @@ void AdminConnection::on_disconnect()
 
 void AdminConnection::on_data()
 {
-    char buf[1026];
+    std::vector<char> buf(1024);
 again:
-    size_t sz = ec_->peekIn(buf, 1024);
-    buf[sz] = 0;
+    size_t sz = ec_->peekIn(&buf[0], buf.size());
     for (size_t i = 0; i != sz; ++i)
     {
         if (buf[i] == '\n')
@@ -170,6 +169,12 @@ again:
             goto again;
         }
     }
+    if (sz == buf.size())
+    {
+        //  the line is longer than what was looked at
+        buf.resize(buf.size() * 2);
+        goto again;
+    }
 }
 
 void AdminConnection::doCmd(std::string const &cmd)
-- 
2.43.0


From 5e3f2a17e7ef8831a2b3abc3a86e012490c88092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:13 +0000
Subject: [PATCH 59/68] fix: counter names in multi-counter answers are escaped

---
 daemon/RequestInFlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index d329f52..4e7162a 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -389,7 +389,7 @@ public:
             {
                 delim = ",";
             }
-            req_->strm_buffer_ << "\"" << name << "\":{"
+            req_->strm_buffer_ << "\"" << js_quote(name) << "\":{"
                         << "\"start\":" << normalized_start
                         << ",\"end\":" << normalized_end
                         << ",\"interval\":" << interval
@@ -518,7 +518,7 @@ void RequestInFlight::on_multigetBody()
                 {
                     delim = ",";
                 }
-                strm_buffer_ << "\"" << name << "\":\"Not found.\"";
+                strm_buffer_ << "\"" << js_quote(name) << "\":\"Not found.\"";
             }
             else
             {
-- 
2.43.0


From 02551b80f33c36fbc2241c0e955fac6489a037e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 60/68] fix: label values of the metrics exposition are escaped

---
 daemon/PromExporter.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 39354ab..728b62e 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -50,6 +50,31 @@ void PromMetric::init(std::string const& ctr)
     istat::prom_munge(name_);
 }
 
+//  label values may hold anything the client sent
+static std::string quote_label_value(std::string const &value)
+{
+    std::string ret;
+    for (std::string::const_iterator ptr(value.begin()), end(value.end()); ptr != end; ++ptr)
+    {
+        switch (*ptr)
+        {
+        case '\\':
+            ret += "\\\\";
+            break;
+        case '"':
+            ret += "\\\"";
+            break;
+        case '\n':
+            ret += "\\n";
+            break;
+        default:
+            ret += *ptr;
+            break;
+        }
+    }
+    return ret;
+}
+
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
@@ -68,11 +93,11 @@ std::string PromMetric::toString() const
         {
             ss << name_;
             std::tr1::unordered_map<std::string, std::string>::const_iterator mit = (*tit).begin();
-            ss << "{" << mit->first << "=\"" << mit->second << "\"";
+            ss << "{" << mit->first << "=\"" << quote_label_value(mit->second) << "\"";
             ++mit;
             while (mit != (*tit).end())
             {
-                ss << "," << mit->first << "=\"" << mit->second << "\"";
+                ss << "," << mit->first << "=\"" << quote_label_value(mit->second) << "\"";
                 ++mit;;
             }
             if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From 7cffc60f8338c76e456ebf5a642aa2d4c388a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 61/68] fix: an empty counter name gets a valid metric name

---
 daemon/PromExporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 728b62e..b4db68b 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -48,6 +48,10 @@ void PromMetric::init(std::string const& ctr)
         type_ = PromMetric::PromTypeGauge;
     }
     istat::prom_munge(name_);
+    if (name_.empty())
+    {
+        name_ = "_";
+    }
 }
 
 //  label values may hold anything the client sent
-- 
2.43.0


From c8744d6f613ba55bc8abb7b97e4280c574a1fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:44 +0000
Subject: [PATCH 62/68] fix: a connection does not tell its users about a
 finished write while it holds its lock

---
 daemon/EagerConnection.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 17083e8..1948472 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -443,18 +443,31 @@ void EagerConnection::resetBackoffOnSuccessfulWrites()
 void EagerConnection::on_write(boost::system::error_code const &err, size_t xfer)
 {
     LogSpam << "EagerConnection::on_write(" << xfer << ")";
-    grab aholdof(mutex_);
-    writePending_ = false;
-    if (!!err || xfer < writeBuf_.size())
+    bool failed = false;
+    {
+        grab aholdof(mutex_);
+        writePending_ = false;
+        if (!!err || xfer < writeBuf_.size())
+        {
+            failed = true;
+            socket_.close();
+        }
+        else
+        {
+            resetBackoffOnSuccessfulWrites();
+            hasErrorConnect_ = false;
+        }
+    }
+    //  Whoever is told takes locks of his own, which are also held by threads
+    //  that use this connection, so nobody can be told while holding the lock.
+    if (failed)
     {
         LogWarning << "Short write on socket to " << resolveHost_ << ":" << resolvePort_ << ": " << err;
-        socket_.close();
         onDisconnect_();
+        grab aholdof(mutex_);
         tryLater();
         return;
     }
-    resetBackoffOnSuccessfulWrites();
-    hasErrorConnect_ = false;
 
     onWrite_(xfer);
     startWrite();
-- 
2.43.0


From cb51a7d022be0365308be89d0086237f04ee8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:13 +0000
Subject: [PATCH 63/68] fix: samples queued for a counter that is deleted leave
 the queue count

---
 daemon/StatStore.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index b6e4cc2..09531f9 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -500,7 +500,13 @@ class DeletedCounter : public IStatCounter
 public:
     DeletedCounter() {}
     virtual bool isCollated() const { return false; }
-    virtual void record(time_t time, double value, double valueSq, double min, double max, size_t cnt) {}
+    virtual void record(time_t time, double value, double valueSq, double min, double max, size_t cnt)
+    {
+        //  the sample was queued while the counter still existed
+        ++dequeueRecords_;
+        --queueLenRecords_;
+        ++recordsRejected_;
+    }
     virtual void flush(boost::shared_ptr<IStatStore> const &store) {}
     virtual void forceFlush(boost::shared_ptr<IStatStore> const &store) {}
     virtual void maybeShiftCollated(time_t t) {}
-- 
2.43.0


From 3b2a8821c6ed03761ecf780c41ff94b6f599be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:09 +0000
Subject: [PATCH 64/68] fix: the states and handlers of a replica connection's
 protocol end with it

---
 daemon/PduProtocol.cpp | 22 ++++++++++++++++++++++
 daemon/PduProtocol.h   |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/daemon/PduProtocol.cpp b/daemon/PduProtocol.cpp
index eea798a..4ad2c41 100644
--- a/daemon/PduProtocol.cpp
+++ b/daemon/PduProtocol.cpp
@@ -14,6 +14,15 @@ PduProtocol::PduProtocol(std::string const &firstStateName)
     curState_ = state(firstStateName);
 }
 
+PduProtocol::~PduProtocol()
+{
+    for (std::map<std::string, PduProtocolState *>::iterator ptr(states_.begin()), end(states_.end());
+        ptr != end; ++ptr)
+    {
+        delete (*ptr).second;
+    }
+}
+
 PduProtocolState *PduProtocol::state(std::string const &name)
 {
     std::map<std::string, PduProtocolState *>::iterator ptr(states_.find(name));
@@ -45,6 +54,19 @@ PduProtocolState::PduProtocolState(PduProtocol *proto, std::string const &name)
 {
 }
 
+PduProtocolState::~PduProtocolState()
+{
+    for (std::map<uint32_t, std::list<PduRecord> >::iterator ptr(pdus_.begin()), end(pdus_.end());
+        ptr != end; ++ptr)
+    {
+        for (std::list<PduRecord>::iterator rec((*ptr).second.begin()), last((*ptr).second.end());
+            rec != last; ++rec)
+        {
+            delete (*rec).callable_;
+        }
+    }
+}
+
 void PduProtocolState::onPdu(uint32_t type, size_t size, void const *data)
 {
     std::list<PduRecord> &pduHandlers = pdus_[type];
diff --git a/daemon/PduProtocol.h b/daemon/PduProtocol.h
index c09e56a..9554f8e 100644
--- a/daemon/PduProtocol.h
+++ b/daemon/PduProtocol.h
@@ -22,6 +22,7 @@ class PduProtocolState;
 class IPduCallable : public boost::noncopyable
 {
 public:
+    virtual ~IPduCallable() {}
     virtual void onPdu(uint32_t type, size_t size, void const *data) = 0;
 };
 
@@ -37,6 +38,7 @@ class PduProtocol : public IPduCallable
 {
 public:
     PduProtocol(std::string const &firstStateName);
+    ~PduProtocol();
     PduProtocolState *state(std::string const &name);
 
     PduProtocolState *curState();
@@ -53,6 +55,10 @@ template<typename PduType>
 class PduCallable : public IPduCallable
 {
 public:
+    ~PduCallable()
+    {
+        delete call_;
+    }
     void onPdu(uint32_t type, size_t size, void const *data)
     {
         assert(type == PduType::Id);
@@ -73,6 +79,7 @@ public:
 private:
     struct IInvoker
     {
+        virtual ~IInvoker() {}
         virtual void operator()(PduType const &pdu) = 0;
     };
     PduCallable(IInvoker *call) :
@@ -110,6 +117,7 @@ private:
 class PduProtocolState : public IPduCallable
 {
 public:
+    ~PduProtocolState();
     template<typename PduType, typename Callable>
     void bindPdu(Callable const &c, PduProtocolState *nuState = 0)
     {
-- 
2.43.0


From cc75d7cdac2179e8fb58697c66ba739492f8d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:29 +0000
Subject: [PATCH 65/68] fix: a trailing bucket that the file has moved past is
 not written in front of its pages

---
 lib/StatFile.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1bec1e5..26c7927 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -604,6 +604,11 @@ namespace istat
     {
         Log(LL_Debug, "istat") << "StatFile::writableBucket(" << bucket_index << ")";
         int64_t file_index = StatFile::mapBucketIndexToFileIndex(bucket_index);
+        if (file_index < 0)
+        {
+            throw std::range_error(std::string("Bad index in StatFile::writableBucket() ")
+                + fileHeader_->name);
+        }
         int64_t page_index = file_index / bucketsPerPage_;
         int64_t off = file_index - (page_index * bucketsPerPage_);
         Bucket *bp = mapBucketPage(page_index, true);
@@ -636,16 +641,25 @@ namespace istat
         {
             int64_t ix = mapTimeToBucketIndex(eb0.time());
             int64_t oix = mapTimeToBucketIndex(eb0.time() - fileHeader_->season);
-            Bucket *wb = writableBucket(ix);
-            Bucket const &o = bucket(oix);
-            if (o.time() > 0)
+            //  the file may have moved on past this bucket by now
+            if (isBucketIndexInFile(ix))
             {
-                *wb = o;
-                wb->expUpdate(eb0, fileHeader_->lambda);
-            }
-            else
-            {
-                *wb = eb0;
+                //  mapping the page of one bucket may unmap the page of the other
+                Bucket o(true);
+                if (isBucketIndexInFile(oix))
+                {
+                    o = bucket(oix);
+                }
+                Bucket *wb = writableBucket(ix);
+                if (o.time() > 0)
+                {
+                    *wb = o;
+                    wb->expUpdate(eb0, fileHeader_->lambda);
+                }
+                else
+                {
+                    *wb = eb0;
+                }
             }
         }
         //  must move one over
-- 
2.43.0


From f828c84706fd75200d3fbdcafcf772960fc5ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:29 +0000
Subject: [PATCH 66/68] fix: the cumulative sums of a file opened for reading
 are not reset

---
 lib/StatFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 26c7927..30ae1c9 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -687,6 +687,11 @@ namespace istat
 
     void StatFile::resetCumulative(time_t lTime)
     {
+        if (!fileWritable_)
+        {
+            throw std::logic_error(std::string("Attempt to reset sums in read-only StatFile ")
+                + fileHeader_->name);
+        }
         fileHeader_->cumulative_sum = 0;
         fileHeader_->cumulative_sum_sq = 0;
         fileHeader_->cumulative_count = 0;
-- 
2.43.0


From 4a10837a1ab035b74feaf1df424d7068616602fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:57 +0000
Subject: [PATCH 67/68] fix: forwarded samples keep all their digits

---
 daemon/StatServer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index b41407d..60bfa8d 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -707,6 +707,10 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         size_t forwardIndex = 0;
         //  if not opened, then we lose this bucket
         std::stringstream ss[count];
+        for (size_t i = 0; i < count; ++i) {
+            //  enough digits to get the same double back at the other end
+            ss[i].precision(17);
+        }
         for (std::tr1::unordered_map<std::string, Bucketizer>::iterator
             ptr(buckets.begin()), end (buckets.end());
             ptr != end;
-- 
2.43.0


From 0eedff2a3a868b26155f4c4b1bb6902552aee0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:57 +0000
Subject: [PATCH 68/68] fix: a flush waits for the writes of the agents it was
 handed to

---
 daemon/StatServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 60bfa8d..646abc0 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -678,6 +678,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
 {
     std::tr1::unordered_map<std::string, Bucketizer> buckets;
     ForwardList conns;
+    std::vector<size_t> indices;    //  of conns in forward_, by which writes are reported
     {
         grab aholdof(forwardMutex_);
         buckets.swap(forwardBuckets_);
@@ -696,6 +697,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
                 }
                 if (connIndex >= noConnSize || noConnectionCounts_[connIndex] <= MAX_AGENT_CONN_TRIES) {
                     conns.push_back(*i);
+                    indices.push_back(connIndex);
                 }
             }
             ++connIndex;
@@ -745,7 +747,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
                 try {
                     size_t pending = conns[i]->writeOut(str);
                     if (agentFlushRequest != NULL) {
-                        agentFlushRequest->add(i, pending);
+                        agentFlushRequest->add(indices[i], pending);
                     }
                 }
                 catch (std::runtime_error const &x) {
-- 
2.43.0

