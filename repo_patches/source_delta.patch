From 8e7db5ff81fd37b1ad60cfe6512c5f877c81d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 01/26] Verification hook: small retry limits under
 FULLOCK_VERIF_BOUNDS

---
 lib/flckbaselist.tcc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4633c7e..fd37ba2 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -35,6 +35,14 @@
 #define	FLCK_ROBUST_CHKCNT_DEFAULT			5000		// == 10-20ns * 5000 = 50-100us
 #define	FLCK_ROBUST_CHKCNT_MIN				50			//
 
+#ifdef	FULLOCK_VERIF_BOUNDS
+// Verification builds only: make the retry limits small enough to be explored exhaustively.
+#undef	FLCK_FLCKPID_TRYLOCK_LIMIT
+#define	FLCK_FLCKPID_TRYLOCK_LIMIT			0
+#undef	FLCK_ROBUST_CHKCNT_MIN
+#define	FLCK_ROBUST_CHKCNT_MIN				0
+#endif
+
 #define	FLCK_NOSHARED_MUTEX_VAL_LOCKED		1
 #define	FLCK_NOSHARED_MUTEX_VAL_UNLOCKED	0
 
-- 
2.43.0


From 086fd92e0f0fa9bb9b27fd75239568a569754bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:15 +0000
Subject: [PATCH 02/26] fix: unlocking a recursively locked mutex released
 every level at once

---
 lib/flckbaselist.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index fd37ba2..5a4f47d 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -401,6 +401,9 @@ namespace fullock
 					}
 					// why? but do recover
 					__sync_fetch_and_add(plockcnt, 1);						// not check result
+				}else{
+					// the mutex is locked recursively, so it is still kept
+					break;
 				}
 			}
 		}while(-1 <= sched_yield());
-- 
2.43.0


From 8f5727d60b7f050e8783dd5b7b9adb16012b7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 03/26] fix: GetRealPath popped from an empty list for a path
 climbing above the root

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8c46cc5..356c99a 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -158,7 +158,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		if((*iter) == "."){
 			// nothing to do
 		}else if((*iter) == ".."){
-			if(rawpathleaf.empty()){
+			if(pathleaf.empty()){
 				WAN_FLCKPRN("Path is wrong(over the root).");
 				return false;
 			}
-- 
2.43.0


From 8ab8e8433ca9ba014affa2346491418b5081a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 04/26] fix: CvtNumberStringToLong accepted strings with wrong
 characters

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 356c99a..aa082f2 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -107,7 +107,7 @@ bool CvtNumberStringToLong(const char* str, long* presult)
 	if((ERANGE == errno && (LONG_MAX == *presult || LONG_MIN == *presult)) || (0 != errno && 0L == *presult)){
 		MSG_FLCKPRN("could not convert %s to long, because under(or over) flow", str);
 		return false;
-	}else if(!errptr){
+	}else if(!errptr || str == errptr || '\0' != *errptr){
 		MSG_FLCKPRN("could not convert %s to long, because wrong character in it.", str);
 		return false;
 	}
-- 
2.43.0


From 129143df3a437bac55c5a0dbed520c8cde8d2e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 05/26] fix: flck_read returned the buffer size instead of the
 read size at EAGAIN

---
 lib/flckutil.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index aa082f2..008c956 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -440,6 +440,7 @@ ssize_t flck_read(int fd, unsigned char** ppbuff)
 		if(-1 == (readsize = read(fd, &pbuff[pos], pagesize))){
 			if(EAGAIN == errno){
 				//MSG_FLCKPRN("reading fd reached end(EAGAIN)");
+				buffsize = pos;
 				break;
 			}else if(EINTR == errno){
 				//MSG_FLCKPRN("break reading fd by signal, so retry to read.");
-- 
2.43.0


From 306f234a153aa4693806d573a9618b5c2c3a7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 06/26] fix: SUB_TIMESPEC subtracted two seconds when borrowing
 from the seconds

---
 lib/flckutil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.h b/lib/flckutil.h
index 452a439..cf106e1 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -204,7 +204,7 @@ inline void SUB_TIMESPEC(const struct timespec* start, const struct timespec* en
 			(result)->tv_nsec	= 0;
 			return;
 		}
-		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec - 1;
+		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
 		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
 	}else{
 		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
-- 
2.43.0


From 36dd23499729bdd6cec66db41e9b2c43aeb2dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 07/26] fix: cond timedwait could return without having locked
 the mutex again

---
 lib/flcklistwaiter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index ceeee57..bb995c8 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -92,8 +92,13 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}
 
 		// do lock named mutex
+		//
+		// [NOTE]
+		// The timeout is only for waiting for the signal. The caller must have the mutex
+		// after this, so the mutex is locked without timeout.
+		//
 		int	subresult;
-		if(0 != (subresult = tgnmtxobj.lock(timeout_usec))){
+		if(0 != (subresult = tgnmtxobj.lock())){
 			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
 			// not need to recover on this case.
 			if(0 == result){
-- 
2.43.0


From 100a5c0687cf80272e31a635ad1fee7a8f48723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 08/26] fix: a mutex could be taken from its live owner when
 the previous owner died waiting on a cond

---
 lib/flcklistnmtx.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/flcklistnmtx.cc b/lib/flcklistnmtx.cc
index 8a7d429..eabea25 100644
--- a/lib/flcklistnmtx.cc
+++ b/lib/flcklistnmtx.cc
@@ -113,6 +113,14 @@ bool FlListNMtx::check_dead_lock(fl_pid_cache_map_t* pcache, flckpid_t except_fl
 		return false;
 	}
 
+	// [NOTE]
+	// Waiting cond unlocks the mutex without lockid, so the owner may have unlocked it
+	// before it died and another thread(process) may have locked it since then.
+	//
+	if(lockval != pcurrent->lockval){
+		return false;
+	}
+
 	// thread(process) does not run, so mutex is dead lock
 	// do force unlock
 	fl_force_unlock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt));
-- 
2.43.0


From c2959c5d94c80cc30c93df89cbd22e8abbbde4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 09/26] fix: a lock request that found a table exhausted left
 the file or range marked as locked

---
 lib/flcklistfilelock.cc | 2 ++
 lib/flcklistofflock.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 76b8a00..45750db 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -104,6 +104,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 			// Not found, so get new offset lock and insert it.
 			if(!tglistobj.retrieve_list(FlShm::pFlHead->offset_lock_free)){
 				ERR_FLCKPRN("Could not get free offset lock structure.");
+				pcurrent->protect = false;											// clear protect flag
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
@@ -117,6 +118,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 				if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
 					ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
 				}
+				pcurrent->protect = false;											// clear protect flag
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
diff --git a/lib/flcklistofflock.cc b/lib/flcklistofflock.cc
index bca9619..e8ffad6 100644
--- a/lib/flcklistofflock.cc
+++ b/lib/flcklistofflock.cc
@@ -117,6 +117,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 		// Always get new locker object.
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->locker_free)){
 			ERR_FLCKPRN("Could not get free locker structure.");
+			pcurrent->protect = false;												// clear protect flag
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
@@ -130,6 +131,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 			if(!tglistobj.insert_list(FlShm::pFlHead->locker_free)){
 				ERR_FLCKPRN("Failed to insert locker to free list, but continue...");
 			}
+			pcurrent->protect = false;												// clear protect flag
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
-- 
2.43.0


From 77e408609201d1c24fd8be660cfd68f17816c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 10/26] fix: a starting process gave up when another one locked
 the file it had just created

---
 lib/flckshminit.cc | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 1e6129b..497cb65 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -134,8 +134,14 @@ bool FlShm::InitializeShm(void)
 			umask(old_umask);
 			return false;
 		}
-		umask(old_umask);
+	}
+	umask(old_umask);
 
+	// [NOTE]
+	// Even if this process created the file, another process may have opened and locked it
+	// before this process does. Then that process initializes the file.
+	//
+	{
 		// check lock & locking
 		struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
 		bool			isSuccess = false;
@@ -175,28 +181,6 @@ bool FlShm::InitializeShm(void)
 			FlShm::Detach();
 			return false;
 		}
-
-	}else{
-		umask(old_umask);
-
-		// lock write mode ASSAP
-		if(!FileWriteLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FLCK_CLOSE(FlShm::ShmFd);
-			return false;
-		}
-		// initialize file
-		if(!FlShm::InitializeShmFile()){
-			ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-			FlShm::Detach();
-			return false;
-		}
-		// Change lock mode to read mode
-		if(!FileReadLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
-		}
 	}
 
 	// run epoll thread
-- 
2.43.0


From 4e76aadf990762e4b138094cb14eee29473f6439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 11/26] fix: a starting process attached to a file whose
 initialising process had died

---
 lib/flckshminit.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 497cb65..86294d5 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -42,6 +42,22 @@ using namespace fullock;
 //---------------------------------------------------------
 #define	FLCK_SHM_PERMS				(S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)
 
+//---------------------------------------------------------
+// Utility
+//---------------------------------------------------------
+// The version in the header is set at the end of initializing, thus it is zero (or the file
+// is too short) when the process which was initializing the file died.
+//
+static bool IsInitializedShmFile(int fd)
+{
+	FLHEAD	head;
+	memset(&head, 0, sizeof(FLHEAD));
+	if(static_cast<ssize_t>(sizeof(FLHEAD)) != flck_pread(fd, &head, sizeof(FLHEAD), 0)){
+		return false;
+	}
+	return (0 != head.version);
+}
+
 //---------------------------------------------------------
 // FlShm : Initialize Methods
 //---------------------------------------------------------
@@ -164,6 +180,13 @@ bool FlShm::InitializeShm(void)
 			}else{
 				// try to lock read mode
 				if(FileReadLock(FlShm::ShmFd, 0L)){
+					// the process which was initializing the file may have died
+					if(!IsInitializedShmFile(FlShm::ShmFd)){
+						MSG_FLCKPRN("%s is not initialized, so retry...", FlShm::ShmPath().c_str());
+						FileUnlock(FlShm::ShmFd, 0L);
+						nanosleep(&sleeptime, NULL);
+						continue;
+					}
 					// attach
 					if(!FlShm::Attach()){
 						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
@@ -261,7 +284,6 @@ bool FlShm::InitializeShmFile(void)
 
 	strcpy(FlShm::pFlHead->szver, FLCK_FILE_VERSION_STR);
 
-	FlShm::pFlHead->version					= FLCK_FILE_VERSION;
 	FlShm::pFlHead->flength					= sz_total;
 	FlShm::pFlHead->file_lock_lockid		= FLCK_INVALID_ID;
 	FlShm::pFlHead->file_lock_list			= NULL;
@@ -282,6 +304,10 @@ bool FlShm::InitializeShmFile(void)
 		FlShm::pFlHead	= NULL;
 		return false;
 	}
+	// set version at last, it means that the file is initialized
+	__sync_synchronize();
+	FlShm::pFlHead->version	= FLCK_FILE_VERSION;
+
 	return true;
 }
 
-- 
2.43.0


From 5a90f609b5206040412a912a171a35fb2397fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 12/26] fix: ReInitializeObject failed when it was the first
 use of the library

The singleton was constructed lazily after Destroy and attached by itself, so
InitializeShm reported that the object was already initialized.
---
 lib/flckshm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 2674213..f416bde 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -326,6 +326,12 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		}
 	}
 
+	// [NOTE]
+	// The singleton attaches in its constructor, so it must be constructed before destroying.
+	// If not, it is constructed(and attached) below, then the following initializing fails.
+	//
+	FlShm::InitializeSingleton(NULL);
+
 	// Destroy this
 	if(!FlShm::Destroy()){
 		ERR_FLCKPRN("Failed to destroy now fullock object.");
-- 
2.43.0


From b2db1c1765efa9a872f948deaefa84a7f5cf0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 13/26] fix: a blank or invalid file name left the shared file
 without a name

---
 lib/flckshm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index f416bde..ebd193e 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -103,7 +103,7 @@ class FlShmHelper
 		string			ShmPath;					// flck shm file path
 
 	protected:
-		FlShmHelper(void) : flckshm(this), ShmDirPath(""), ShmFileName(""), ShmPath("")
+		FlShmHelper(void) : flckshm(this), ShmDirPath(""), ShmFileName(DEFAULT_SHM_FILENAME), ShmPath("")
 		{
 			FlShm::pShmDirPath	= &ShmDirPath;
 			FlShm::pShmFileName	= &ShmFileName;
@@ -320,7 +320,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	if(!FLCKEMPTYSTR(filename)){
 		string	filepath = filename;
 		filepath = trim(filepath);
-		if(string::npos != filepath.find('/')){
+		if(filepath.empty() || string::npos != filepath.find('/')){
 			ERR_FLCKPRN("File name(%s) is invalid.", filename);
 			return false;
 		}
@@ -1204,7 +1204,7 @@ bool FlShm::LoadEnv(void)
 	}else{
 		string	filepath = pEnvVal;
 		filepath = trim(filepath);
-		if(string::npos != filepath.find('/')){
+		if(filepath.empty() || string::npos != filepath.find('/')){
 			ERR_FLCKPRN("%s ENV has invalid file name(%s).", FlShm::FLCKFILENAME, pEnvVal);
 		}else{
 			FlShm::ShmFileName() = filepath;
-- 
2.43.0


From 56dacc96bc2f10d31294f13c530010e4d985ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 14/26] fix: a count in the environment above the int range
 wrapped to a legal value

FLCKFILECNT=4294967300 was accepted as 4.
---
 lib/flckshm.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index ebd193e..6cc2018 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <strings.h>
+#include <limits.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -1123,8 +1124,8 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKROBUSTCHKCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKROBUSTCHKCNT);
 	}else{
-		time_t	tmpenvval = static_cast<time_t>(atoi(pEnvVal));
-		if(tmpenvval < FLCK_ROBUST_CHKCNT_MIN){
+		time_t	tmpenvval = static_cast<time_t>(atol(pEnvVal));
+		if(tmpenvval < FLCK_ROBUST_CHKCNT_MIN || INT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be over %d.", FlShm::FLCKROBUSTCHKCNT, pEnvVal, FLCK_ROBUST_CHKCNT_MIN);
 		}else{
 			FlShm::RobustLoopCnt = tmpenvval;
@@ -1216,7 +1217,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKFILECNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKFILECNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(atol(pEnvVal));
 		if(tmpenvval < FLCK_FLCKFILECNT_MIN || FLCK_FLCKFILECNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKFILECNT, pEnvVal, FLCK_FLCKFILECNT_MIN, FLCK_FLCKFILECNT_MAX);
 		}else{
@@ -1229,7 +1230,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKOFFETCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKOFFETCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(atol(pEnvVal));
 		if(tmpenvval < FLCK_FLCKOFFETCNT_MIN || FLCK_FLCKOFFETCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKOFFETCNT, pEnvVal, FLCK_FLCKOFFETCNT_MIN, FLCK_FLCKOFFETCNT_MAX);
 		}else{
@@ -1242,7 +1243,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKLOCKERCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKLOCKERCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(atol(pEnvVal));
 		if(tmpenvval < FLCK_FLCKLOCKERCNT_MIN || FLCK_FLCKLOCKERCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKLOCKERCNT, pEnvVal, FLCK_FLCKLOCKERCNT_MIN, FLCK_FLCKLOCKERCNT_MAX);
 		}else{
@@ -1255,7 +1256,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKNMTXCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKNMTXCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(atol(pEnvVal));
 		if(tmpenvval < FLCK_FLCKNMTXCNT_MIN || FLCK_FLCKNMTXCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKNMTXCNT, pEnvVal, FLCK_FLCKNMTXCNT_MIN, FLCK_FLCKNMTXCNT_MAX);
 		}else{
@@ -1268,7 +1269,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKNCONDCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKNCONDCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(atol(pEnvVal));
 		if(tmpenvval < FLCK_FLCKNCONDCNT_MIN || FLCK_FLCKNCONDCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKNCONDCNT, pEnvVal, FLCK_FLCKNCONDCNT_MIN, FLCK_FLCKNCONDCNT_MAX);
 		}else{
@@ -1281,7 +1282,7 @@ bool FlShm::LoadEnv(void)
 	if(NULL == (pEnvVal = getenv(FlShm::FLCKWAITERCNT))){
 		MSG_FLCKPRN("%s ENV is not set.", FlShm::FLCKWAITERCNT);
 	}else{
-		size_t	tmpenvval = static_cast<size_t>(atoi(pEnvVal));
+		size_t	tmpenvval = static_cast<size_t>(atol(pEnvVal));
 		if(tmpenvval < FLCK_FLCKWAITERCNT_MIN || FLCK_FLCKWAITERCNT_MAX < tmpenvval){
 			ERR_FLCKPRN("%s ENV value(%s) is invalid, it must be between %d and %d.", FlShm::FLCKWAITERCNT, pEnvVal, FLCK_FLCKWAITERCNT_MIN, FLCK_FLCKWAITERCNT_MAX);
 		}else{
-- 
2.43.0


From 8893b04156cea60d38442cee39316d01894375f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 15/26] fix: ReInitializeObject handled the cond and waiter
 counts wrongly

The waiter count was checked only when a locker count was given (and then the
default was rejected), and the default of both counts was not restored.
---
 lib/flckshm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 6cc2018..615ff9b 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -299,7 +299,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		(FLCK_INITCNT_DEFAULT != lockercnt		&& (lockercnt < FLCK_FLCKLOCKERCNT_MIN	|| FLCK_FLCKLOCKERCNT_MAX < lockercnt))	||
 		(FLCK_INITCNT_DEFAULT != nmtxcnt		&& (nmtxcnt < FLCK_FLCKNMTXCNT_MIN		|| FLCK_FLCKNMTXCNT_MAX < nmtxcnt))		||
 		(FLCK_INITCNT_DEFAULT != ncondcnt		&& (ncondcnt < FLCK_FLCKNCONDCNT_MIN	|| FLCK_FLCKNCONDCNT_MAX < ncondcnt))	||
-		(FLCK_INITCNT_DEFAULT != lockercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
+		(FLCK_INITCNT_DEFAULT != waitercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
 	{
 		ERR_FLCKPRN("Parameters are wrong: filelock cnt(%zu), offsetlock cnt(%zu), locker cnt(%zu), named mutex cnt(%zu), named cond cnt(%zu), waiter cnt(%zu)", filelockcnt, offlockcnt, lockercnt, nmtxcnt, ncondcnt, waitercnt);
 		return false;
@@ -365,6 +365,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	FlShm::OffLockAreaCount		= FLCK_FLCKOFFETCNT_DEFAULT;
 	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
 	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
+	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
+	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 	// Load environment manually
 	// cppcheck-suppress unmatchedSuppression
-- 
2.43.0


From dd8aaf46b7a4bac489ea07f885303b0264d59cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 16/26] fix: making the working directory failed when another
 process made it at the same time

---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 008c956..593d0ad 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -219,7 +219,7 @@ bool MakeWorkDirectory(const char* pDirPath)
 			}
 			// Make directory
 			mode_t	old_umask = umask(0);
-			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS)){
+			if(0 != mkdir(fullpath.c_str(), FLCK_WORK_DIRECTORY_PERMS) && EEXIST != errno){	// another process may make it at the same time
 				WAN_FLCKPRN("Could not make directory(%s), errno=%d", fullpath.c_str(), errno);
 				umask(old_umask);
 				return false;
-- 
2.43.0


From 25ab63e5cab920c886ca94676a738c09fe5e18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:34 +0000
Subject: [PATCH 17/26] fix: locks of a process which exited were never
 recovered in the low robust mode

The worker thread checked only when the shared file was closed, which happens
before the exiting process disappears. It now checks also once a second.
---
 lib/flckthread.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 2d48913..a1d3c97 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -85,6 +85,11 @@ inline void set_exit_thread_cntrl_flag(volatile FlckThread::THCNTLFLAG* pflag)
 	}
 }
 
+//---------------------------------------------------------
+// Symbols
+//---------------------------------------------------------
+#define	FLCK_CHECK_TIMEOUT_COUNT		100			// check dead process by this count of timeout(= 1s by default interval)
+
 //---------------------------------------------------------
 // Class variable
 //---------------------------------------------------------
@@ -219,6 +224,7 @@ void* FlckThread::WorkerProc(void* param)
 	// do loop
 	struct timespec		sleepms = {(intervalms / 1000), (intervalms % 1000) * 1000 * 1000};
 	struct epoll_event  events[FLCK_WAIT_EVENT_MAX];
+	int					timeoutcnt = 0;
 	while(FlckThread::FLCK_THCNTL_EXIT > *pThFlag){
 		pthread_testcancel();												// check cancel
 
@@ -260,7 +266,19 @@ void* FlckThread::WorkerProc(void* param)
 				// signal occurred.
 
 			}else{	// 0 == eventcnt
-				// timeouted, nothing to do
+				// timeouted
+				//
+				// [NOTE]
+				// The file is closed before the exiting process disappears, then the process may have
+				// been still alive when CLOSE event was caught. Thus we need to check it periodically.
+				//
+				if(FLCK_CHECK_TIMEOUT_COUNT <= ++timeoutcnt){
+					timeoutcnt = 0;
+					FlShm	LocalFlShm;
+					if(!LocalFlShm.CheckProcessDead()){
+						WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
+					}
+				}
 			}
 		}
 	}
-- 
2.43.0


From 727e6ca3341cdeb5784ef53b03334b6ed1ba9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:20 +0000
Subject: [PATCH 18/26] fix: a reserved lock object which could not unlock at
 destruction stayed in the global stack

---
 lib/rwlockrcsv.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index e5141a3..1d3277f 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -106,7 +106,21 @@ FLRwlRcsv::FLRwlRcsv(int fd, off_t offset, size_t length, bool is_read) : lock_t
 FLRwlRcsv::~FLRwlRcsv(void)
 {
 	bool	is_mutex_locked = false;
-	RawUnlock(is_mutex_locked);
+	if(!RawUnlock(is_mutex_locked)){
+		// RawUnlock put this object back into global stack, but it disappears now.
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
+		for(flrwlrcsv_vec_t::iterator iter = FLRwlRcsv::Stack().begin(); iter != FLRwlRcsv::Stack().end(); ++iter){
+			// cppcheck-suppress unmatchedSuppression
+			// cppcheck-suppress useStlAlgorithm
+			if(this == (*iter)){
+				FLRwlRcsv::Stack().erase(iter);
+				break;
+			}
+		}
+	}
 
 	if(is_mutex_locked){
 		FLRwlRcsv::StackUnlock();
-- 
2.43.0


From dd42cddb7404cca0f41847ed7fbe83b637f0797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:20 +0000
Subject: [PATCH 19/26] fix: the global stack of the reserved lock objects was
 changed without its mutex at changing lock type

---
 lib/rwlockrcsv.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 1d3277f..93eb909 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -294,6 +294,11 @@ bool FLRwlRcsv::RawReadLock(bool& is_mutex_locked)
 			ERR_FLCKPRN("Failed to unlock.");
 			return false;
 		}
+		// RawUnlock unlocks mutex for global stack when it unlocks the last lock.
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
 	}
 	lock_type = FLCK_READ_LOCK;
 
@@ -382,6 +387,11 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 			ERR_FLCKPRN("Failed to unlock.");
 			return false;
 		}
+		// RawUnlock unlocks mutex for global stack when it unlocks the last lock.
+		if(!is_mutex_locked){
+			FLRwlRcsv::StackLock();
+			is_mutex_locked = true;
+		}
 	}
 	lock_type = FLCK_WRITE_LOCK;
 
-- 
2.43.0


From 33172d4ab4922d1b9f8779d99f9381d639284b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:20 +0000
Subject: [PATCH 20/26] fix: a reserved lock object which failed to lock write
 mode deadlocked with itself

---
 lib/rwlockrcsv.cc | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 93eb909..1355ac5 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -431,25 +431,30 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 	}
 
 	// unlock all same tid reader
-	for(flrwlrcsv_vec_t::iterator iter = PendingReaderList.begin(); iter != PendingReaderList.end(); ++iter){
-		if((*iter)->is_locked && (*iter)->has_locker){
-			int	result1 = shm.Unlock((*iter)->lock_fd, (*iter)->lock_offset, (*iter)->lock_length);
-			if(0 != result1){
-				ERR_FLCKPRN("Could not unlock reader for fd(%d) offset(%zd) length(%zu), error code=%d, but continue...", (*iter)->lock_fd, (*iter)->lock_offset, (*iter)->lock_length, result1);
+	int							result		= 0;
+	flrwlrcsv_vec_t::iterator	reader_iter	= PendingReaderList.begin();
+	for(; reader_iter != PendingReaderList.end(); ++reader_iter){
+		if((*reader_iter)->is_locked && (*reader_iter)->has_locker){
+			if(0 != (result = shm.Unlock((*reader_iter)->lock_fd, (*reader_iter)->lock_offset, (*reader_iter)->lock_length))){
+				// this reader keeps its lock, then write lock can not be taken.
+				ERR_FLCKPRN("Could not unlock reader for fd(%d) offset(%zd) length(%zu), error code=%d", (*reader_iter)->lock_fd, (*reader_iter)->lock_offset, (*reader_iter)->lock_length, result);
+				break;
 			}
 		}
-		(*iter)->has_locker	= false;
-		(*iter)->is_locked	= true;
-		(*iter)->pMaster	= this;
-		PendingStack.push_back(*iter);
+		(*reader_iter)->has_locker	= false;
+		(*reader_iter)->is_locked	= true;
+		(*reader_iter)->pMaster		= this;
+		PendingStack.push_back(*reader_iter);
 
 		// add pending list
-		FLRwlRcsv::move_pending_stack(PendingStack, (*iter)->PendingStack, this);
-		(*iter)->PendingStack.clear();
+		FLRwlRcsv::move_pending_stack(PendingStack, (*reader_iter)->PendingStack, this);
+		(*reader_iter)->PendingStack.clear();
 	}
 
 	// try write lock
-	int	result = shm.WriteLock(lock_fd, lock_offset, lock_length);
+	if(0 == result){
+		result = shm.WriteLock(lock_fd, lock_offset, lock_length);
+	}
 	if(0 != result){
 		ERR_FLCKPRN("Could not writer lock for fd(%d) offset(%zd) length(%zu), error code=%d", lock_fd, lock_offset, lock_length, result);
 
@@ -467,6 +472,14 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 				break;
 			}
 		}
+		// put back readers which keep their lock into global stack
+		for(; reader_iter != PendingReaderList.end(); ++reader_iter){
+			FLRwlRcsv::Stack().push_back(*reader_iter);
+		}
+		// unlock mutex for global stack, because it is locked in re-locking
+		FLRwlRcsv::StackUnlock();
+		is_mutex_locked = false;
+
 		// re-lock pending list(and put into global stack)
 		for(flrwlrcsv_vec_t::iterator iter = PendingStack.begin(); iter != PendingStack.end(); ++iter){
 			(*iter)->has_locker	= false;
-- 
2.43.0


From 8b6a8ede5324fabd6d4242931500c08e5302d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:11 +0000
Subject: [PATCH 21/26] fix: threads which attached at the same time under the
 retry modes used the shared memory before it was attached

---
 lib/flckshm.cc     | 11 +++++++++--
 lib/flckshm.h      |  2 ++
 lib/flckshminit.cc |  5 +++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 615ff9b..ae1fe8f 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -189,6 +189,8 @@ size_t				FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
 size_t				FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 int					FlShm::ShmFd				= FLCK_INVALID_HANDLE;
+volatile bool		FlShm::IsAttached			= false;
+int					FlShm::AttachLockVal		= FLCK_NOSHARED_MUTEX_VAL_UNLOCKED;
 std::string*		FlShm::pShmDirPath			= NULL;
 std::string*		FlShm::pShmFileName			= NULL;
 std::string*		FlShm::pShmPath				= NULL;
@@ -654,11 +656,16 @@ void FlShm::PreforkHandler(void)
 //---------------------------------------------------------
 bool FlShm::CheckAttach(void)
 {
-	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
+	if(FlShm::IsAttached){
 		return true;
 	}
 	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
-		if(FlShm::InitializeShm()){
+		// only one thread attaches, the others wait for it
+		flck_lock_noshared_mutex(&FlShm::AttachLockVal);
+		bool	result = (FlShm::IsAttached || FlShm::InitializeShm());
+		flck_unlock_noshared_mutex(&FlShm::AttachLockVal);
+
+		if(result){
 			// Success to initialize
 			return true;
 		}
diff --git a/lib/flckshm.h b/lib/flckshm.h
index bd5b067..905ac76 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -88,6 +88,8 @@ class FlShm
 
 		// Shared memory
 		static int				ShmFd;							// shm file descriptor
+		static volatile bool	IsAttached;						// true after attaching shm completely
+		static int				AttachLockVal;					// lock value for attaching shm in each function
 		static std::string*		pShmDirPath;					// flck shm Directory path
 		static std::string*		pShmFileName;					// flck shm file name
 		static std::string*		pShmPath;						// flck shm file path
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 86294d5..64ad77a 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -103,6 +103,8 @@ bool FlShm::Attach(void)
 
 bool FlShm::Detach(void)
 {
+	FlShm::IsAttached = false;
+
 	// munmap
 	if(!FlShm::pShmBase){
 		WAN_FLCKPRN("Already munmap.");
@@ -232,6 +234,9 @@ bool FlShm::InitializeShm(void)
 			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
 		}
 	}
+	__sync_synchronize();
+	FlShm::IsAttached = true;
+
 	return true;
 }
 
-- 
2.43.0


From 5238c252d0c59cf932307f3d7b991e7c8a8ff839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 22/26] fix: the retry modes never attached when the path of
 the shared file had not been made at the start

---
 lib/flckshm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index ae1fe8f..069d836 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -662,7 +662,7 @@ bool FlShm::CheckAttach(void)
 	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
 		// only one thread attaches, the others wait for it
 		flck_lock_noshared_mutex(&FlShm::AttachLockVal);
-		bool	result = (FlShm::IsAttached || FlShm::InitializeShm());
+		bool	result = (FlShm::IsAttached || FlShm::InitializeObject(false));	// path may not be set yet
 		flck_unlock_noshared_mutex(&FlShm::AttachLockVal);
 
 		if(result){
-- 
2.43.0


From e90f5475c67fbdbeffa68e5188f19d6b3792a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:29 +0000
Subject: [PATCH 23/26] fix: a forked child kept the thread id of its parent,
 so its locks were judged to be of a dead thread

---
 lib/flckutil.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 593d0ad..47feb8c 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -565,6 +565,8 @@ size_t GetSystemPageSize(void)
 class FlTidCache
 {
 	protected:
+		static FlTidCache*	pCache;					// for forking
+
 		bool			Initialized;
 		pthread_key_t	TidKey;						// == unsigned int
 
@@ -577,11 +579,21 @@ class FlTidCache
 				Initialized = false;
 			}else{
 				Initialized = true;
+
+				// the thread in child process has another id
+				pCache = this;
+				if(0 != (result = pthread_atfork(NULL, NULL, ChildHandler))){
+					ERR_FLCKPRN("Failed to set handler for forking, error code=%d.", result);
+					pthread_key_delete(TidKey);
+					pCache		= NULL;
+					Initialized	= false;
+				}
 			}
 		}
 
 		virtual ~FlTidCache(void)
 		{
+			pCache = NULL;
 			if(Initialized){
 				int	result = pthread_key_delete(TidKey);
 				if(0 != result){
@@ -590,6 +602,16 @@ class FlTidCache
 			}
 		}
 
+		//
+		// Clear the id of the forking thread in child process
+		//
+		static void ChildHandler(void)
+		{
+			if(pCache){
+				pthread_setspecific(pCache->TidKey, NULL);
+			}
+		}
+
 		//
 		// Access function to avoid static object initialization order problem
 		//
@@ -611,6 +633,8 @@ class FlTidCache
 		}
 };
 
+FlTidCache*	FlTidCache::pCache = NULL;
+
 //
 // Thread Id Cache: Global function
 //
-- 
2.43.0


From 94b081fc80c47ad6fd94db5b177f98d24194f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:29 +0000
Subject: [PATCH 24/26] fix: a forked child did not lock the shm file, started
 a worker per initialization and kept handles of the parent's worker

---
 lib/flckshm.cc     | 25 +++++++++++++++++++++++--
 lib/flckshm.h      |  1 +
 lib/flckshminit.cc | 37 ++++++++++++++++++++++++++-----------
 lib/flckthread.cc  |  7 +++++++
 4 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 069d836..3292cf2 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -636,11 +636,30 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 //---------------------------------------------------------
 // FlShm : For Forking
 //---------------------------------------------------------
-// When the program which loads this fullock library is forked, we need to start worker thread
-// in child process.
+// When the program which loads this fullock library is forked, we need to attach the shm file
+// and to start worker thread in child process.
+//
+// [NOTE]
+// The lock for the shm file is not inherited by child process. Thus another process could
+// initialize the file after the parent process exited, if the child process did not lock it.
 //
 void FlShm::PreforkHandler(void)
 {
+	bool	is_attached = FlShm::IsAttached;
+
+	// another thread in parent process may have been attaching or detaching
+	FlShm::AttachLockVal = FLCK_NOSHARED_MUTEX_VAL_UNLOCKED;
+	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
+		FlShm::Detach();
+	}
+	if(!is_attached || !FlShm::AttachShm()){
+		if(is_attached){
+			ERR_FLCKPRN("Call Prefork handler and try to attach shm file for child process(%d), but FAILED TO ATTACH", getpid());
+		}
+		FlShm::pCheckPidThread = NULL;						// the thread does not exist in this process
+		return;
+	}
+
 	if(FlShm::pCheckPidThread){
 		if(!FlShm::pCheckPidThread->ReInitializeThread()){
 			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
@@ -649,6 +668,8 @@ void FlShm::PreforkHandler(void)
 			ERR_FLCKPRN("Call Prefork handler and try to run thread for child process(%d), but FAILED TO RUN THREAD", getpid());
 		}
 	}
+	__sync_synchronize();
+	FlShm::IsAttached = true;
 }
 
 //---------------------------------------------------------
diff --git a/lib/flckshm.h b/lib/flckshm.h
index 905ac76..00eddba 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -117,6 +117,7 @@ class FlShm
 		static bool Attach(void);
 		static bool Detach(void);
 		static bool InitializeObject(bool is_load_env);
+		static bool AttachShm(void);
 		static bool InitializeShm(void);
 		static bool InitializeShmFile(void);
 		static bool Destroy(void);
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 64ad77a..a1561c3 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -130,7 +130,9 @@ bool FlShm::Detach(void)
 	return true;
 }
 
-bool FlShm::InitializeShm(void)
+// Open, lock and attach the shm file(this initializes the file if no process attaches it)
+//
+bool FlShm::AttachShm(void)
 {
 	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
 		ERR_FLCKPRN("Already initialized object.");
@@ -207,6 +209,29 @@ bool FlShm::InitializeShm(void)
 			return false;
 		}
 	}
+	return true;
+}
+
+bool FlShm::InitializeShm(void)
+{
+	if(!FlShm::AttachShm()){
+		return false;
+	}
+
+	// [NOTE]
+	// The child process of a forked program which loads this fullock library does not have the lock
+	// for the shm file nor the worker thread. Thus we set a handler at forking, and it attaches the
+	// shm file and runs thread in child process.
+	//
+	static bool	is_set_handler = false;
+	if(!is_set_handler){
+		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
+		if(0 != result){
+			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+		}else{
+			is_set_handler = true;
+		}
+	}
 
 	// run epoll thread
 	if(FlShm::IsRobust()){
@@ -223,16 +248,6 @@ bool FlShm::InitializeShm(void)
 			FlShm::Detach();
 			return false;
 		}
-
-		// [NOTE]
-		// When the program which loads this fullock library is forked, we need to start worker thread
-		// in child process.
-		// Thus we set a handler at forking, and it initializes and runs thread in child process.
-		//
-		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
-		if(0 != result){
-			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
-		}
 	}
 	__sync_synchronize();
 	FlShm::IsAttached = true;
diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index a1d3c97..fa4361b 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -398,6 +398,13 @@ bool FlckThread::ReInitializeThread(void)
 		FlckThread::pThreadParam = NULL;
 	}
 
+	// close handles opened by the worker thread in parent process
+	// (do not remove the watch, because inotify is shared with parent process)
+	//
+	FlckThread::WatchFd = FLCK_INVALID_HANDLE;
+	FLCK_CLOSE(FlckThread::InotifyFd);
+	FLCK_CLOSE(FlckThread::EventFd);
+
 	// initialize inner data
 	string	tmppath	= bup_filepath;
 	thflag			= FlckThread::FLCK_THCNTL_STOP;
-- 
2.43.0


From 50ff3ec510f2d5a9ab5a03adf18df0836ecee76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:00 +0000
Subject: [PATCH 25/26] fix: do not confuse device and execution results in the
 pid cache

A lock without a file uses fd -1, the same value the execution results
use as their key. One sweep then took "is alive" for "no device" and the
reverse: the lock of a dead thread stayed, or a live one's was released.
---
 lib/flckpidcache.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lib/flckpidcache.h b/lib/flckpidcache.h
index 382e2a6..aa3103d 100644
--- a/lib/flckpidcache.h
+++ b/lib/flckpidcache.h
@@ -25,19 +25,25 @@
 //---------------------------------------------------------
 // Key structure
 //
+// [NOTE]
+// The results for device and for execution must not be confused. When fd is FLCK_RWLOCK_NO_FD(no fd),
+// it is same value as FLCK_INVALID_HANDLE. Thus the key has the type of result.
+//
 typedef struct fl_pid_cache_key{
 	pid_t	pid;
 	tid_t	tid;
 	int		fd;
+	bool	is_exec;
 
-	explicit fl_pid_cache_key(pid_t in_pid = FLCK_INVALID_ID, tid_t in_tid = FLCK_INVALID_ID, int in_fd = FLCK_INVALID_HANDLE) : pid(in_pid), tid(in_tid), fd(in_fd) {}
-	fl_pid_cache_key(const fl_pid_cache_key& other) : pid(other.pid), tid(other.tid), fd(other.fd) {}
+	explicit fl_pid_cache_key(pid_t in_pid = FLCK_INVALID_ID, tid_t in_tid = FLCK_INVALID_ID, int in_fd = FLCK_INVALID_HANDLE, bool in_is_exec = false) : pid(in_pid), tid(in_tid), fd(in_fd), is_exec(in_is_exec) {}
+	fl_pid_cache_key(const fl_pid_cache_key& other) : pid(other.pid), tid(other.tid), fd(other.fd), is_exec(other.is_exec) {}
 
 	fl_pid_cache_key& operator=(const fl_pid_cache_key& other)
 	{
-		pid	= other.pid;
-		tid	= other.tid;
-		fd	= other.fd;
+		pid		= other.pid;
+		tid		= other.tid;
+		fd		= other.fd;
+		is_exec	= other.is_exec;
 		return *this;
 	}
 
@@ -61,11 +67,10 @@ typedef struct fl_pid_cache_key{
 			return true;
 		}else if(fd > other.fd){
 			return false;
-		}else if(FLCK_INVALID_HANDLE == fd){
-			return false;
 		}
-		// fd != FLCK_INVALID_HANDLE && fd == other.fd
-		return false;
+		// fd == other.fd
+
+		return (!is_exec && other.is_exec);
 	}
 }FLPIDCACHEKEY, *PFLPIDCACHEKEY;
 
@@ -139,7 +144,7 @@ inline bool get_execution_cache(fl_pid_cache_map_t* pcache, pid_t pid, tid_t tid
 	if(!pcache){
 		return false;
 	}
-	FLPIDCACHEKEY						key(pid, tid);
+	FLPIDCACHEKEY						key(pid, tid, FLCK_INVALID_HANDLE, true);
 	fl_pid_cache_map_t::const_iterator	iter = pcache->find(key);
 	if(pcache->end() == iter){
 		return false;
@@ -153,7 +158,7 @@ inline bool set_execution_cache(fl_pid_cache_map_t* pcache, pid_t pid, tid_t tid
 	if(!pcache){
 		return false;
 	}
-	FLPIDCACHEKEY	key(pid, tid);
+	FLPIDCACHEKEY	key(pid, tid, FLCK_INVALID_HANDLE, true);
 	FLPIDCACHEVAL	val(FLCK_INVALID_ID, FLCK_INVALID_ID, is_run);
 	(*pcache)[key] = val;
 	return true;
-- 
2.43.0


From b8aabd4c03f3bd0b29f3c8c23c6b470145d5966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 26/26] fix: retry a non-blocking read lock whose counter
 another reader changed

fl_tryrdlock_rwlock tried its compare-and-swap once and answered EBUSY
when another reader had come or gone in between, although no writer was
there.
---
 lib/flckbaselist.tcc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 5a4f47d..7474dc1 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -169,14 +169,18 @@ namespace fullock
 
 	inline int fl_tryrdlock_rwlock(flck_rwlock_t* plockval)
 	{
-		flck_rwlock_t	beforeval	= *plockval;
-		flck_rwlock_t	newval		= beforeval + 1;
-		if(FLCK_RWLOCK_UNLOCK > beforeval){
-			return EBUSY;
-		}
-		if(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)){
-			return EBUSY;
-		}
+		flck_rwlock_t	newval;
+		flck_rwlock_t	beforeval;
+		do{
+			beforeval	= *plockval;
+			newval		= beforeval + 1;
+			if(FLCK_RWLOCK_UNLOCK > beforeval){
+				return EBUSY;
+			}
+			// [NOTE]
+			// If the value is changed by other reader, must retry it because this is not busy.
+			//
+		}while(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval));
 		return 0;
 	}
 
-- 
2.43.0

