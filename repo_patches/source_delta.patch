From c0b12b25ac2b36e784e87a0d0c2477ef8444a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 01/39] fix: hold the database lock while cards create removes
 and installs packages

---
 src/create.cxx | 8 +++++---
 src/create.h   | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 7314221..687f918 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -110,8 +110,9 @@ void create::base()
         }
         found = false;
     }
+    std::unique_ptr<cards::lock> Lock;
     if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-        cards::lock Lock(m_root, true);
+        Lock.reset(new cards::lock(m_root, true));
     for (auto i : list) {
         m_packageName = i;
 
@@ -276,9 +277,9 @@ void create::run()
 		removePackageFiles(package.first, keep_list);
 	}
 
+    std::unique_ptr<cards::lock> Lock;
     if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-	    cards::lock Lock(m_root, true);
-
+	    Lock.reset(new cards::lock(m_root, true));
 
     installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
@@ -293,6 +294,7 @@ void create::run()
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
+    Lock.reset();
 	postRun();
 
 }
diff --git a/src/create.h b/src/create.h
index 6142b1b..5a1b356 100644
--- a/src/create.h
+++ b/src/create.h
@@ -9,6 +9,8 @@
 #include "pkgadd.h"
 #include "pkgrepo.h"
 
+#include <memory>
+
 namespace cards {
 
 class create : public pkgadd {
-- 
2.43.0


From 5c91f3e0c0ef245b9b6eb516ff522c46026e3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 02/39] fix: drop the database record of a removed package only
 after its files

---
 src/create.cxx  | 10 +++++-----
 src/upgrade.cxx |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 687f918..202f89f 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -116,12 +116,12 @@ void create::base()
     for (auto i : list) {
         m_packageName = i;
 
+        // Remove the files on hd
+        removePackageFiles(m_packageName);
+
         // Remove metadata about the package removed
         if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
             removePackageFilesRefsFromDB(m_packageName);
-
-        // Remove the files on hd
-        removePackageFiles(m_packageName);
     }
 }
 bool create::isACollection()
@@ -271,10 +271,10 @@ void create::run()
 			setDependency();
 
 		cards::lock Lock(m_root, true);
-		// Remove metadata about the package removed
-		removePackageFilesRefsFromDB(package.first);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
+		// Remove metadata about the package removed
+		removePackageFilesRefsFromDB(package.first);
 	}
 
     std::unique_ptr<cards::lock> Lock;
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d2e3e9d..0156fbb 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -153,8 +153,8 @@ void upgrade::upgradePackages()
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
 		buildDatabase(true);
-		removePackageFilesRefsFromDB(i);
 		removePackageFiles(i);
+		removePackageFilesRefsFromDB(i);
 		syslog(LOG_INFO,"%s removed",i.c_str());
 	}
 	m_config.purge();
-- 
2.43.0


From 44f84ce32e44533eb6a7f9e8cf8e0be191c4a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 03/39] fix: do not re-create an empty entry for a package that
 was just removed

---
 src/pkgdbh.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6dc0352..351b41c 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -909,7 +909,6 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 	}
 	std::set<std::string> metaFilesList;
 	const std::string packagedir = m_root + PKG_DB_DIR ;
-	const std::string arch = m_listOfPackages[name].arch();
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
 	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
-- 
2.43.0


From dacb51601d05763715ccad30d7ecc0ec04aa0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 04/39] fix: raise the create-directory, change-directory and
 level errors

---
 src/pkgdbh.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 351b41c..a64b933 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -67,7 +67,13 @@ void pkgdbh::treatErrors(const std::string& s) const
 			throw std::runtime_error(_("cannot find any depot, check your /etc/cards.conf file") + s);
 			break;
 		case ERROR_ENUM_CANNOT_CREATE_DIRECTORY:
+			throw RunTimeErrorWithErrno(_("could not create directory ") + s);
+			break;
+		case ERROR_ENUM_CANNOT_CHANGE_DIRECTORY:
+			throw RunTimeErrorWithErrno(_("could not change directory to ") + s);
+			break;
 		case ERROR_ENUM_CANNOT_GENERATE_LEVEL:
+			throw std::runtime_error(_("could not generate the level of ") + s);
 			break;
 		case ERROR_ENUM_CANNOT_DOWNLOAD_FILE:
 			throw std::runtime_error(_("could not download ") + s);
-- 
2.43.0


From 277959dd97e12ca90d6945adca1597aead3d3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 05/39] fix: bound and check the file helpers (copy,
 directories, line reading)

---
 src/file_utils.cxx | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6804a35..c8407d8 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -222,20 +222,31 @@ void removeFile(const std::string& basedir, const std::string& filename)
 int copyFile( const char *  destFile, const char *  origFile)
 {
 	FILE * infile  = fopen(origFile,  "rb");
+	if (!infile)
+		return -1;
 	FILE * outfile = fopen(destFile, "wb");
+	if (!outfile) {
+		fclose(infile);
+		return -1;
+	}
 
 	char buffer[BUFSIZ];
+	int result = 0;
+	size_t n;
 
-	while (!feof(infile)) {
-		int n = fread(buffer, 1, BUFSIZ, infile);
-		fwrite(buffer, 1, n, outfile);
+	while ((n = fread(buffer, 1, BUFSIZ, infile)) > 0) {
+		if (fwrite(buffer, 1, n, outfile) != n) {
+			result = -1;
+			break;
+		}
 	}
-
-	fflush(outfile);
+	if (ferror(infile))
+		result = -1;
 
 	fclose(infile);
-	fclose(outfile);
-	return 0;
+	if (fclose(outfile) != 0)
+		result = -1;
+	return result;
 }
 	
 int findDir(std::set<std::string>& filesList, const std::string& path)
@@ -262,9 +273,10 @@ bool createRecursiveDirs(const std::string& path)
 {
   char opath[MAXPATHLEN];
   char *p;
-  size_t len;
+  size_t len = path.size();
+  if (len >= sizeof(opath))
+    return false;
   strcpy(opath, path.c_str());
-  len = strlen(opath);
   if ( len > 1)
   {
     if(opath[len - 1] == '/')
@@ -281,9 +293,8 @@ bool createRecursiveDirs(const std::string& path)
     }
     if(access(opath, 0))
       mkdir(opath,S_CARDS_MODE);
-    return true;
   }
-  return false;
+  return access(opath, 0) == 0;
 }
 
 int findRecursiveFile(std::set<std::string>& filenameList, const char *filename, int spec)
@@ -313,7 +324,11 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 			continue;
 		if (!strcmp(dent->d_name, ".") || !strcmp(dent->d_name, ".."))
 			continue;
-		strncpy(fn + len, dent->d_name, FILENAME_MAX - len);
+		if (snprintf(fn + len, FILENAME_MAX - len, "%s", dent->d_name) >= FILENAME_MAX - len)
+		{
+			res = WALK_NAMETOOLONG;
+			continue;
+		}
 		if (lstat(fn, &st) == -1)
 		{
 			warn("Can't stat %s", fn);
@@ -352,7 +367,7 @@ int parseFile(std::set<std::string>& fileContent, const char* fileName)
 	char input[BUFSIZ];
 
 	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
+		input[strcspn(input, "\n")] = '\0';
 		fileContent.insert(input);
   }
   fclose(fp);
@@ -369,7 +384,7 @@ int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 	char input[BUFSIZ];
 
 	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
+		input[strcspn(input, "\n")] = '\0';
 		fileContent.push_back(input);
 	}
 	fclose(fp);
-- 
2.43.0


From 49082e4ece71464e8c1c99b9f79a950c006c0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 06/39] fix: clean the package scratch files of the target
 root, not of /

---
 src/file_utils.cxx | 12 ++++++------
 src/pkgdbh.cxx     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index c8407d8..b7bc070 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -178,37 +178,37 @@ void cleanupMetaFiles(const std::string& basedir)
 #ifdef DEBUG
 		std::cerr << basedir << "/.INFO removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.INFO");
+		remove((basedir + "/.INFO").c_str());
 	}
 	if ( checkFileExist( basedir + "/.META") ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.META removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.META");
+		remove((basedir + "/.META").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.PRE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.PRE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.PRE");
+		remove((basedir + "/.PRE").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.POST" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.POST removed" << std::endl;
 #endif
-		removeFile ( basedir , "/.POST");
+		remove((basedir + "/.POST").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.MTREE");
+		remove((basedir + "/.MTREE").c_str());
 	}
 	if ( checkFileExist ( basedir + "/.README" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.README removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.README");
+		remove((basedir + "/.README").c_str());
 	}
 }
 void removeFile(const std::string& basedir, const std::string& filename)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index a64b933..aea7474 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -668,7 +668,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		}
 	for (auto i : metaFilesList)
 		info.files.erase(i);
-	removeFile (m_root, "/.MTREE");
+	remove((m_root + MTREEFILE).c_str());
 	if (checkFileExist(m_root + PKG_PRE_REMOVE))
 		metaFilesList.insert(PKG_PRE_REMOVE);
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
-- 
2.43.0


From 9ff21313b34f765ab7d4e3eb213b79e80a7ce09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 07/39] fix: queries no longer delete the scratch files of a
 running installation

---
 src/create.cxx | 5 +++++
 src/pkgadd.cxx | 5 +++++
 src/pkgdbh.cxx | 1 -
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/create.cxx b/src/create.cxx
index 202f89f..e6a8cf6 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -253,6 +253,11 @@ void create::run()
 	std::set<std::string> non_install_files = applyInstallRules(package.first,
 		package.second, m_actionRules);
 
+	{
+		// Forget the scratch files of a previous aborted installation
+		cards::lock Lock(m_root, true);
+		cleanupMetaFiles(m_root);
+	}
 	preRun();
 
 	std::set<std::string> conflicting_files = getConflictsFilesList(package.first,
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ca29ed5..a163946 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -86,6 +86,11 @@ void pkgadd::run()
 	std::set<std::string> non_install_files = applyInstallRules(package.first,
 		package.second, m_actionRules);
 
+	{
+		// Forget the scratch files of a previous aborted installation
+		cards::lock Lock(m_root, true);
+		cleanupMetaFiles(m_root);
+	}
 	if (m_runPrePost)
 		preRun();
 
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index aea7474..4aebe78 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -474,7 +474,6 @@ pkgdbh::buildSimpleDependenciesDatabase()
 void pkgdbh::buildDatabase(const bool& files)
 {
 	using namespace cards;
-	cleanupMetaFiles(m_root);
 	if (!m_DB_Empty)
 		return;
 
-- 
2.43.0


From 3b3fc431759a51e72ac804d0ac78efa1600ebcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 08/39] fix: report failed fork, failed wait and death by
 signal of a child as failure

---
 src/process.cxx | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index ac099c9..24e1876 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -5,7 +5,14 @@
 
 #include "process.h"
 
+/** exit code of a child that exited by itself, -1 if it was killed or could not be run */
+static int exitStatus(int status)
+{
+    return WIFEXITED(status) ? WEXITSTATUS(status) : -1;
+}
+
 process::process()
+    : m_fileDescriptorLog(0)
 {
 }
 process::process(const std::string& app, const std::string& arguments, int fdlog)
@@ -72,7 +79,8 @@ int process::execLog(const int argc, char** argv)
 {
     int status = 0;
     int fdpipe[2];
-    pipe(fdpipe);
+    if (pipe(fdpipe) != 0)
+        return -1;
 
     pid_t pid = fork();
     if (pid == 0) {
@@ -85,8 +93,9 @@ int process::execLog(const int argc, char** argv)
         _exit(EXIT_FAILURE);
     } else if (pid < 0) {
         // fork failed
-        if (status == 0)
-            status = -1;
+        close(fdpipe[0]);
+        close(fdpipe[1]);
+        status = -1;
     } else {
         // parent process
         close(fdpipe[1]);
@@ -110,7 +119,7 @@ int process::execLog(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::exec(const int argc, char** argv)
@@ -132,7 +141,7 @@ int process::exec(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::executeShell()
@@ -153,7 +162,8 @@ int process::execShellLog(const char* shell)
     int status = 0;
 
     int fdpipe[2];
-    pipe(fdpipe);
+    if (pipe(fdpipe) != 0)
+        return -1;
 
     pid_t pid = fork();
     if (pid == 0) {
@@ -166,8 +176,9 @@ int process::execShellLog(const char* shell)
         _exit(EXIT_FAILURE);
     } else if (pid < 0) {
         // fork failed
-        if (status == 0)
-            status = -1;
+        close(fdpipe[0]);
+        close(fdpipe[1]);
+        status = -1;
     } else {
         // parent process
         close(fdpipe[1]);
@@ -191,7 +202,7 @@ int process::execShellLog(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::execShell(const char* shell)
@@ -213,5 +224,5 @@ int process::execShell(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
-- 
2.43.0


From ed4046d81fed0197df939b4ef0979aeef7bcca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 09/39] fix: turn every exception and an unknown command into a
 failure status

---
 src/cards.cxx | 3 ++-
 src/tools.cxx | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cards.cxx b/src/cards.cxx
index 8f79987..3d6e905 100644
--- a/src/cards.cxx
+++ b/src/cards.cxx
@@ -272,8 +272,9 @@ int main(int argc, char** argv)
         default:
             cout << "not found" << endl;
             cout << cardsArgPars.getIdValue(cardsArgPars.command()) << endl;
+            return EXIT_FAILURE;
         }
-    } catch (runtime_error& e) {
+    } catch (exception& e) {
         cerr << "cards " << PACKAGE_VERSION << " " << command << ": " << e.what() << endl;
         return EXIT_FAILURE;
     }
diff --git a/src/tools.cxx b/src/tools.cxx
index c82942a..17cd991 100644
--- a/src/tools.cxx
+++ b/src/tools.cxx
@@ -54,7 +54,7 @@ int main(int argc, char** argv)
 		}
 		util->run(argc, argv);
 
-	} catch (std::runtime_error& e) {
+	} catch (std::exception& e) {
 		std::cerr << name <<  " " << PACKAGE_VERSION << ": " << e.what() << std::endl;
 		return EXIT_FAILURE;
 	}
-- 
2.43.0


From 2ae733e6854ddb0ff9634a4b901cf64ab78eef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 10/39] fix: a build killed or not started is a failed build

---
 src/create.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/create.cxx b/src/create.cxx
index e6a8cf6..bcd3270 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -635,7 +635,7 @@ void create::buildBinary(std::string packageName)
         break;
     }
 
-    if (result > 0) {
+    if (result != 0) {
         s += NORMAL;
         m_actualError = ERROR_ENUM_CANNOT_PARSE_FILE;
         treatErrors("Pkgfile: " + s);
-- 
2.43.0


From 96c3d6b1f10f5dd06dd0100d9ea48bf2eda92998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 11/39] fix: an alias no longer bypasses the removal
 protections

---
 src/remove.cxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 9f9f333..7f7957d 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -35,9 +35,14 @@ remove::remove(const std::string& commandName,
 			treatErrors(i);
 		}
 
+		// if it's an alias get the real name
+		std::string name = i;
+		if (checkPackageNameExist(i))
+			name = m_listOfAlias[i];
+
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
-				if ( i == k.first) {
+				if ((i == k.first) || (name == k.first)) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
 					treatErrors(i);
@@ -61,11 +66,9 @@ remove::remove(const std::string& commandName,
 				}
 			}
 		}
-		{
-			// if it's an alias get the real name
-			std::string a = m_listOfAlias [i];
-			PackageToRemove.first = a ;
-			PackageToRemove.second = getCollection(i);
+		if (checkPackageNameExist(i)) {
+			PackageToRemove.first = name;
+			PackageToRemove.second = getCollection(name);
 			listOfPackagesToRemove.insert(PackageToRemove);
 		}
 	}
-- 
2.43.0


From 7e17046853bbe46d981c278ab60ac83dc5d4a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 12/39] fix: cards remove refuses an operand that selects
 nothing and looks at every set given

---
 src/remove.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 7f7957d..20e7247 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -40,6 +40,8 @@ remove::remove(const std::string& commandName,
 		if (checkPackageNameExist(i))
 			name = m_listOfAlias[i];
 
+		bool selected = false;
+
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
 				if ((i == k.first) || (name == k.first)) {
@@ -53,19 +55,25 @@ remove::remove(const std::string& commandName,
 				PackageToRemove.first=j.first;
 				PackageToRemove.second=j.second.collection();
 				listOfPackagesToRemove.insert(PackageToRemove);
+				selected = true;
 			}
 		}
-		if (listOfPackagesToRemove.empty()) {
+		if (!selected) {
 			for (auto j : m_listOfPackages) {
 				for (auto k : j.second.sets()) {
 					if ( i == k ) {
 						PackageToRemove.first = j.first;
 						PackageToRemove.second=j.second.collection();
 						listOfPackagesToRemove.insert(PackageToRemove);
+						selected = true;
 					}
 				}
 			}
 		}
+		if (!selected && !checkPackageNameExist(i)) {
+			m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_INSTALL;
+			treatErrors(i);
+		}
 		if (checkPackageNameExist(i)) {
 			PackageToRemove.first = name;
 			PackageToRemove.second = getCollection(name);
-- 
2.43.0


From 012b5b11b5c016c8dcd42ef74e707f5fc3a75512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 13/39] fix: keep upgrades and archive members inside the
 requested root

---
 src/pkgdbh.cxx  | 18 +++++++++++++-----
 src/upgrade.cxx |  3 ++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 4aebe78..ccd9435 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1194,8 +1194,11 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 		treatErrors(filename);
 	}
 
-	getcwd(buf, sizeof(buf));
-	chdir(m_root.c_str());
+	if (getcwd(buf, sizeof(buf)) == nullptr || chdir(m_root.c_str()) != 0) {
+		FREE_ARCHIVE(archive);
+		m_actualError = cards::ERROR_ENUM_CANNOT_CHANGE_DIRECTORY;
+		treatErrors(m_root);
+	}
 
 	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
 		ARCHIVE_OK; ++m_installedFilesNumber)
@@ -1251,8 +1254,12 @@ void pkgdbh::installArchivePackage
 			m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 			treatErrors(filename);
 		}
-	chdir(m_root.c_str());
-	absm_root = getcwd(buf, sizeof(buf));
+	if (chdir(m_root.c_str()) != 0 || getcwd(buf, sizeof(buf)) == nullptr) {
+		FREE_ARCHIVE(archive);
+		m_actualError = cards::ERROR_ENUM_CANNOT_CHANGE_DIRECTORY;
+		treatErrors(m_root);
+	}
+	absm_root = buf;
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
 
@@ -1288,7 +1295,8 @@ void pkgdbh::installArchivePackage
 		                           (real_filename.c_str()));
 
 		// Extract file
-		unsigned int flags = ARCHIVE_EXTRACT_OWNER | ARCHIVE_EXTRACT_PERM | ARCHIVE_EXTRACT_TIME | ARCHIVE_EXTRACT_UNLINK;
+		unsigned int flags = ARCHIVE_EXTRACT_OWNER | ARCHIVE_EXTRACT_PERM | ARCHIVE_EXTRACT_TIME | ARCHIVE_EXTRACT_UNLINK
+			| ARCHIVE_EXTRACT_SECURE_NODOTDOT;
 		if (archive_read_extract(archive, entry, flags) != ARCHIVE_OK) {
 			// If a file fails to install we just print an error message and
 			// continue trying to install the rest of the package.
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 0156fbb..334e46a 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -12,7 +12,8 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT);
+		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+			+ m_root;
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
 		if (m_diff.size() > 0)
-- 
2.43.0


From af1fb7d669d0f858005fe881569f260a9997d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 14/39] fix: bound and check the reading of an archive member,
 and find its build date

---
 src/archive.cxx | 21 ++++++++++++++-------
 src/archive.h   |  4 ++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 60a492b..aa02b1e 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -84,20 +84,25 @@ void archive::extractFileContent
             m_fileName.c_str(),
             DEFAULT_BYTES_PER_BLOCK)
         != ARCHIVE_OK) {
+        archive_read_free(ar);
         m_actualError = cards::CANNOT_OPEN_ARCHIVE;
         treatErrors(m_fileName);
     }
-    unsigned int i = 0;
     int64_t entry_size;
     while (archive_read_next_header(ar, &ae) == ARCHIVE_OK) {
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
-            char* fC = (char*)malloc(entry_size);
-            archive_read_data(ar, fC, entry_size);
-            fC[entry_size-1] = '\0';
-            list = parseDelimitedVectorList(fC,'\n');
-            free(fC);
+            if (entry_size <= 0)
+                break;
+            std::string fC(entry_size,'\0');
+            if (archive_read_data(ar, &fC[0], entry_size) != entry_size) {
+                archive_read_free(ar);
+                m_actualError = cards::CANNOT_READ_ARCHIVE;
+                treatErrors(m_fileName);
+            }
+            fC.back() = '\0';
+            list = parseDelimitedVectorList(fC.c_str(),'\n');
             break;
         }
     }
@@ -351,13 +356,15 @@ std::string archive::builddate()
     char* c_time_s;
     std::string buildtime;
     for (auto bt : m_contentMeta) {
-        if (buildtime[0] == BUILD) {
+        if (bt[0] == BUILD) {
             buildtime = bt.substr(1);
             break;
         }
     }
     time_t ct = strtoul(buildtime.c_str(), nullptr, 0);
     c_time_s = ctime(&ct);
+    if (c_time_s == nullptr)
+        return "";
     std::string build = c_time_s;
     return build;
 }
diff --git a/src/archive.h b/src/archive.h
index cfcb083..0c64681 100644
--- a/src/archive.h
+++ b/src/archive.h
@@ -13,7 +13,7 @@
 
 class archive {
 
-	unsigned int long        m_size;
+	unsigned int long        m_size = 0;
 
 	std::string              m_fileName;
 	std::string              m_packageName;
@@ -28,7 +28,7 @@ class archive {
 	std::set<std::string>    m_categoriesList;
 	std::set<std::string>    m_setsList;
 
-	cards::archive_error     m_actualError;
+	cards::archive_error     m_actualError{};
 
 	std::set<std::pair<std::string, time_t>>
 	                         m_rtDependenciesEpochList;
-- 
2.43.0


From e6754157bc5ab757a689c5f5dcc301e919536ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 15/39] fix: release the archive and lock handles when an error
 is raised

---
 src/lock.cxx   |  3 +++
 src/pkgdbh.cxx | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/lock.cxx b/src/lock.cxx
index a519190..d407bbf 100644
--- a/src/lock.cxx
+++ b/src/lock.cxx
@@ -22,6 +22,9 @@ lock::lock(const std::string& m_root, bool exclusive)
 		throw RunTimeErrorWithErrno("could not read directory " + dirname);
 
 	if (flock(dirfd(m_dir), (exclusive ? LOCK_EX : LOCK_SH) | LOCK_NB) == -1) {
+		int error = errno;
+		closedir(m_dir);
+		errno = error;
 		if (errno == EWOULDBLOCK)
 			throw std::runtime_error("package database is currently locked by another process");
 		else
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index ccd9435..c6fdadf 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1190,6 +1190,7 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 		filename.c_str(),
 		DEFAULT_BYTES_PER_BLOCK) != ARCHIVE_OK)
 	{
+		FREE_ARCHIVE(archive);
 		m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 		treatErrors(filename);
 	}
@@ -1251,6 +1252,7 @@ void pkgdbh::installArchivePackage
 	    filename.c_str(),
 	    DEFAULT_BYTES_PER_BLOCK) != ARCHIVE_OK)
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 			treatErrors(filename);
 		}
@@ -1331,11 +1333,13 @@ void pkgdbh::installArchivePackage
 	if (m_installedFilesNumber == 0) {
 		if (archive_errno(archive) == 0)
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_EMPTY_PACKAGE;
 			treatErrors(filename);
 		}
 		else
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 			treatErrors(filename);
 		}
@@ -1565,6 +1569,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 	    filename.c_str(),
 	    DEFAULT_BYTES_PER_BLOCK) != ARCHIVE_OK)
 			{
+				FREE_ARCHIVE(archive);
 				m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 				treatErrors(filename);
 			}
@@ -1583,6 +1588,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 
 		if (S_ISREG(mode) && archive_read_data_skip(archive))
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 			treatErrors(filename);
 		//	throw RunTimeErrorWithErrno("could not read " + filename, archive_errno(archive));
@@ -1599,6 +1605,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 	    filename.c_str(),
 	    DEFAULT_BYTES_PER_BLOCK) != ARCHIVE_OK)
 			{
+				FREE_ARCHIVE(archive);
 				m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
 				treatErrors(filename);
         // throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
@@ -1664,6 +1671,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 
 		if (S_ISREG(mode) && archive_read_data_skip(archive))
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 			treatErrors(filename);
 		//	throw RunTimeErrorWithErrno("could not read " + filename, archive_errno(archive));
@@ -1673,11 +1681,13 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 	if (i == 0) {
 		if (archive_errno(archive) == 0)
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_EMPTY_PACKAGE;
 			treatErrors(filename);
 		}
 		else
 		{
+			FREE_ARCHIVE(archive);
 			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 			treatErrors(filename);
 		}
-- 
2.43.0


From d6bbedbc04b53018ac6dd9cc90409f8fa630d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 16/39] fix: a download that could not be stored is an error,
 and its resources are released

---
 src/dwl.cxx      | 36 +++++++++++++++++++++++++-----------
 src/dwl.h        | 27 +++++++++++++++------------
 src/file_utils.h |  6 +++---
 3 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 9584b5c..38857d3 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -19,12 +19,13 @@ dwl::dwl(std::vector<fileToDownload> destinationFiles, bool progress)
 {
 	curl_global_init(CURL_GLOBAL_ALL);
 	m_curl = curl_easy_init();
-	if (! m_curl)
+	if (! m_curl) {
+		curl_global_cleanup();
 		throw std::runtime_error ("Curl error");
+	}
 
 	curl_easy_setopt(m_curl, CURLOPT_NOPROGRESS, 1L);
 
-	m_slist=nullptr;
 	m_slist= curl_slist_append(m_slist, "Cache-Control: no-cache");
 	for (auto i : destinationFiles)
 	{
@@ -54,9 +55,10 @@ dwl::dwl(std::string url,
 
 	curl_global_init(CURL_GLOBAL_ALL);
 	m_curl = curl_easy_init();
-	if (! m_curl)
+	if (! m_curl) {
+		curl_global_cleanup();
 		throw std::runtime_error ("Curl error");
-	m_slist=nullptr;
+	}
 	m_slist= curl_slist_append(m_slist, "Cache-Control: no-cache");
 	createRecursiveDirs(dirName);
 
@@ -93,20 +95,32 @@ void dwl::get()
 	curl_easy_setopt(m_curl, CURLOPT_VERBOSE, 1L);
 #endif
 	m_curlCode = curl_easy_perform(m_curl);
-	if ( m_curlCode != CURLE_OK) {
-		std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
-		throw std::runtime_error ( "\n\nURL   : " +
-		m_url + "\nFILE  : " +
-		m_downloadFileName +"\n\n !!! download failed !!! \n");
-	}
+	bool stored = true;
 	if (m_destinationFile.stream) {
-		fclose(m_destinationFile.stream);
+		stored = (fclose(m_destinationFile.stream) == 0);
+		m_destinationFile.stream = nullptr;
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
 		m_destinationFile.acmodtime.actime = fT;
 		m_destinationFile.acmodtime.modtime = fT;
 		utime ( m_destinationFile.filename.c_str(),&m_destinationFile.acmodtime);
 	}
+	if ( m_curlCode != CURLE_OK || ! stored) {
+		if (m_curlCode != CURLE_OK)
+			std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
+		cleanup();
+		throw std::runtime_error ( "\n\nURL   : " +
+		m_url + "\nFILE  : " +
+		m_downloadFileName +"\n\n !!! download failed !!! \n");
+	}
+}
+void dwl::cleanup()
+{
+	curl_slist_free_all(m_slist);
+	m_slist = nullptr;
+	curl_easy_cleanup(m_curl);
+	m_curl = nullptr;
+	curl_global_cleanup();
 }
 
 void dwl::initFileToDownload(std::string _url,
diff --git a/src/dwl.h b/src/dwl.h
index e268fb5..8bce16e 100644
--- a/src/dwl.h
+++ b/src/dwl.h
@@ -20,9 +20,9 @@ class dwlState
 {
 	public:
 
-		double dlnow;
-		double dltotal;
-		double dlspeed;
+		double dlnow = 0;
+		double dltotal = 0;
+		double dlspeed = 0;
 		std::string filename;
 };
 
@@ -66,18 +66,23 @@ class dwlEvent
 
 class dwl
 {
-		bool			m_progress;
+		bool			m_progress = false;
 		std::string		m_url;
 		std::string		m_downloadFileName;
 		std::string		m_fileName;
 
-		CURL*			m_curl;
-		CURLcode		m_curlCode;
+		CURL*			m_curl = nullptr;
+		CURLcode		m_curlCode = CURLE_OK;
 		/**
 		* download effectively the request file
 		*/
 		void get();
 
+		/**
+		* release everything the download library gave us
+		*/
+		void cleanup();
+
 		static int updateProgressHandle(void *p,
 			curl_off_t dltotal,
 			curl_off_t dlnow,
@@ -108,11 +113,11 @@ class dwl
 		struct dwlProgress
 		{
 			std::string name;
-			double lastruntime;
-			CURL *curl;
+			double lastruntime = 0;
+			CURL *curl = nullptr;
 		};
 
-		struct curl_slist *m_slist;
+		struct curl_slist *m_slist = nullptr;
 
 		dwlProgress	m_downloadProgress;
 		InfoFile	m_destinationFile;
@@ -149,9 +154,7 @@ class dwl
 		*/
 		~dwl()
 		{
-			curl_slist_free_all(m_slist);
-			curl_global_cleanup();
-			curl_easy_cleanup(m_curl);
+			cleanup();
 		}
 
 		static void SuscribeToEvents(dwlEvent* callback);
diff --git a/src/file_utils.h b/src/file_utils.h
index fc50f9f..990c777 100644
--- a/src/file_utils.h
+++ b/src/file_utils.h
@@ -35,9 +35,9 @@ struct InfoFile {
     std::string filename;
     std::string dirname;
     std::string hash;
-    long int filetime;
-    utimbuf acmodtime;
-    FILE* stream;
+    long int filetime = 0;
+    utimbuf acmodtime{};
+    FILE* stream = nullptr;
 };
 struct fileToDownload {
     std::string url;
-- 
2.43.0


From bb1727d755ee1661adbe86ee67d6d831fdb9e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 17/39] fix: a repository list that cannot be uncompressed or
 stored is an error

---
 src/sync.cxx | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/sync.cxx b/src/sync.cxx
index 4f8a11d..86d583e 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -63,10 +63,8 @@ void sync::run()
 void sync::uncompress(const std::string& fileName)
 {
 	std::ifstream inFile(fileName + ".zst", std::ios::binary);
-	if (!inFile) {
-		std::cerr << "Cannot open file: " << fileName << "\n";
-		return;
-	}
+	if (!inFile)
+		throw std::runtime_error("Cannot open file: " + fileName + ".zst");
 
 	inFile.seekg(0, std::ios::end);
 	size_t compressSize = inFile.tellg();
@@ -78,37 +76,28 @@ void sync::uncompress(const std::string& fileName)
 
 	// Findout memory buffer
 	size_t decompressSize = ZSTD_getFrameContentSize(compressData.data(), compressSize);
-	if (decompressSize == ZSTD_CONTENTSIZE_UNKNOWN) {
-		std::cerr << "Unknown size"
-			<< std::endl;
-		return;
-	} else if (decompressSize == ZSTD_CONTENTSIZE_ERROR) {
-		std::cerr << "Something wrong in the compress file:"
-			<< fileName
-			<< std::endl;
-		return;
-	}
+	if (decompressSize == ZSTD_CONTENTSIZE_UNKNOWN)
+		throw std::runtime_error("Unknown size: " + fileName + ".zst");
+	if (decompressSize == ZSTD_CONTENTSIZE_ERROR)
+		throw std::runtime_error("Something wrong in the compress file: " + fileName + ".zst");
 
 	// Decompress
 	std::vector<char> decompressData(decompressSize);
 	size_t result = ZSTD_decompress(decompressData.data(), decompressSize, compressData.data(), compressSize);
 
-	if (ZSTD_isError(result)) {
-	std::cerr << "Error uncompressing: "
-		<< ZSTD_getErrorName(result)
-		<< std::endl;
-	return;
-	}
+	if (ZSTD_isError(result))
+		throw std::runtime_error(std::string("Error uncompressing: ")
+			+ ZSTD_getErrorName(result));
 
 	// Write to file
 	std::ofstream outFile(fileName, std::ios::binary|std::ios::out);
 	if (!outFile)
-		std::cerr << "Can't open file: "
-		<< fileName
-		<< std::endl;
+		throw std::runtime_error("Can't open file: " + fileName);
 
 	outFile.write(decompressData.data(),decompressData.size());
 	outFile.close();
+	if (!outFile)
+		throw std::runtime_error("Can't write file: " + fileName);
 }
 
 }
-- 
2.43.0


From c445085a2dbc21a284f09b3b1e4f812a057e36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 18/39] fix: cards repo fails when the index cannot be written
 or a signature is wrong

---
 src/repo.cxx | 74 ++++++++++++++++++++++------------------------------
 src/repo.h   |  2 ++
 2 files changed, 33 insertions(+), 43 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index ddd02e1..5412620 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -16,13 +16,10 @@ repo::repo(const CardsArgumentParser& argParser,
     if ((config.keypath().empty()) ||
         (!checkFileExist(keyfile))) {
         for (auto pkg : m_pkgrepo.getListOfPackages()) {
-            if (!m_pkgrepo.checkSign(pkg.first)) {
-                std::cout << "Package "
-                    << pkg.first
-                    << ": Wrong signature !!!"
-                    << std::endl;
-                break;
-            }
+            if (!m_pkgrepo.checkSign(pkg.first))
+                throw std::runtime_error("Package "
+                    + pkg.first
+                    + ": Wrong signature !!!");
             if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                 rotatingCursor();
         }
@@ -56,27 +53,19 @@ repo::repo(const CardsArgumentParser& argParser,
                 << repofile
                 << std::endl;
 
-            FILE* mp = fopen(repometa.c_str(),"w");
-            if (!mp) {
-                std::cout << "Cannot open "
-                    << repometa
-                    << std::endl;
-                return;
-            }
-            FILE* fp = fopen(repofile.c_str(),"w");
-            if (!fp) {
-                std::cout << "Cannot open "
-                    << repofile
-                    << std::endl;
-                return;
-            }
+            std::unique_ptr<FILE, int (*)(FILE*)> metaFile(fopen(repometa.c_str(),"w"), fclose);
+            FILE* mp = metaFile.get();
+            if (!mp)
+                throw RunTimeErrorWithErrno("Cannot open " + repometa);
+            std::unique_ptr<FILE, int (*)(FILE*)> filesFile(fopen(repofile.c_str(),"w"), fclose);
+            FILE* fp = filesFile.get();
+            if (!fp)
+                throw RunTimeErrorWithErrno("Cannot open " + repofile);
             findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT);
             for (auto file : listOfFiles) {
                 archive a(file);
-                if (stat(file.c_str(), &buf) != 0) {
-                    std::cerr << "Cannot find size of " << file << std::endl;
-                    return;
-                }
+                if (stat(file.c_str(), &buf) != 0)
+                    throw RunTimeErrorWithErrno("Cannot find size of " + file);
 
                 m_pkgrepo.generateHash(file);
                 pos = file.rfind( '/' );
@@ -119,8 +108,13 @@ repo::repo(const CardsArgumentParser& argParser,
                 if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                     rotatingCursor();
             }
-            fclose(fp);
-            fclose(mp);
+            bool written = !ferror(fp) && !ferror(mp);
+            if (fclose(filesFile.release()) != 0)
+                written = false;
+            if (fclose(metaFile.release()) != 0)
+                written = false;
+            if (!written)
+                throw RunTimeErrorWithErrno("Cannot write " + repometa + " and " + repofile);
             std::cout << std::endl;
             std::cout << "Compressing "
                 << repometa
@@ -138,12 +132,10 @@ repo::repo(const CardsArgumentParser& argParser,
                 << " packages signed"
                 << std::endl;
         else
-            if (!found) {
-                std::cerr << "Collection: "
-                    << m_argParser.otherArguments()[0]
-                    << " does not exist !!"
-                    << std::endl;
-            }
+            if (!found)
+                throw std::runtime_error("Collection: "
+                    + m_argParser.otherArguments()[0]
+                    + " does not exist !!");
     }
 
 }
@@ -151,9 +143,7 @@ void repo::compress(const std::string fileName) {
 
     std::ifstream inFile(fileName, std::ios::binary);
     if (!inFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << std::endl;
+        throw RunTimeErrorWithErrno("Cannot open file: " + fileName);
 
     inFile.seekg(0,std::ios::end);
     size_t inSize = inFile.tellg();
@@ -170,20 +160,18 @@ void repo::compress(const std::string fileName) {
     // Compression
     size_t result = ZSTD_compress(compressData.data(), compressSize, inData.data(), inSize, 19);
     if (ZSTD_isError(result))
-        std::cerr << "Compression error: "
-            << ZSTD_getErrorName(result)
-            << std::endl;
+        throw std::runtime_error(std::string("Compression error: ")
+            + ZSTD_getErrorName(result));
 
     std::ofstream outFile(fileName + ".zst", std::ios::binary);
 
     if (!outFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << ".zst"
-            << std::endl;
+        throw RunTimeErrorWithErrno("Cannot open file: " + fileName + ".zst");
 
     outFile.write(compressData.data(), result);
     outFile.close();
+    if (!outFile)
+        throw RunTimeErrorWithErrno("Cannot write file: " + fileName + ".zst");
 
 }
 
diff --git a/src/repo.h b/src/repo.h
index 87c3f61..ef1b676 100644
--- a/src/repo.h
+++ b/src/repo.h
@@ -4,6 +4,8 @@
 #include "cards_argument_parser.h"
 #include "pkgrepo.h"
 
+#include <memory>
+
 #include <zstd.h>
 
 namespace cards {
-- 
2.43.0


From ff53303e06ba375f93ce8a8fc167ab03a2047567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 19/39] fix: a package still not matching its checksum after
 the last download is refused

---
 src/pkgrepo.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 3085a33..2adfc2c 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -182,6 +182,11 @@ void pkgrepo::generateDependencies()
                 if (!checkHash(packageName)) {
                     // Last try to get it.
                     downloadPackageFileName(packageName);
+                    generateHash(packageFileName);
+                    if (!checkHash(packageName)) {
+                        m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
+                        treatErrors(packageName);
+                    }
                 }
                 if (!checkSign(packageName)) {
                     m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
-- 
2.43.0


From 2937c834d26f0d2825379e2c5db27be08afaf745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 20/39] fix: create the private key file readable by its owner
 only

---
 src/pkgrepo.cxx | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 2adfc2c..c11f099 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -89,9 +89,23 @@ void pkgrepo::generateKeys()
     }
     EVP_PKEY_CTX_free(ctx);
 
-    FILE* f = fopen(keyfile.c_str(), "w");
+    // Nobody else may read the key, not even while it is written
+    int fd = open(keyfile.c_str(), O_WRONLY | O_CREAT, 0600);
+    if (fd == -1) {
+        EVP_PKEY_free(key);
+        m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
+        treatErrors(keyfile);
+    }
+    if (fchmod(fd, 0600) == -1) {
+        EVP_PKEY_free(key);
+        close(fd);
+        m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
+        treatErrors(keyfile);
+    }
+    FILE* f = ftruncate(fd, 0) == 0 ? fdopen(fd, "w") : nullptr;
     if (!f) {
         EVP_PKEY_free(key);
+        close(fd);
         m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
         treatErrors(keyfile);
     }
@@ -102,9 +116,9 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
-    if (chmod(keyfile.c_str(), 0600) == -1) {
-        m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
+    if (fclose(f) != 0) {
+        EVP_PKEY_free(key);
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
     keyfile = ".";
@@ -122,8 +136,11 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
     EVP_PKEY_free(key);
+    if (fclose(f) != 0) {
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
+        treatErrors(keyfile);
+    }
 }
 void pkgrepo::generateDependencies()
 {
-- 
2.43.0


From 8df41a6bd9986e2f4cfb3eabad95476c6ff1cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 21/39] fix: release the cryptographic contexts on every error
 and refuse odd hexadecimal strings

---
 src/pkgrepo.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index c11f099..0d0995d 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -818,6 +818,7 @@ void pkgrepo::generateHash(const std::string& fileName)
 
     std::ifstream file(fileName, std::ios::binary);
     if (!file.is_open()) {
+        EVP_MD_CTX_free(mdctx);
         throw std::runtime_error("Failed to open file: " + fileName);
     }
 
@@ -829,12 +830,14 @@ void pkgrepo::generateHash(const std::string& fileName)
         if (bytesRead > 0) {
             if (1 != EVP_DigestUpdate(mdctx, buffer, bytesRead)) {
                 errors();
+                EVP_MD_CTX_free(mdctx);
                 throw std::runtime_error("Failed to update digest context");
             }
         }
     }
 
     if (file.bad()) {
+        EVP_MD_CTX_free(mdctx);
         throw std::runtime_error("Failed to read file: " + fileName);
     }
 
@@ -843,6 +846,7 @@ void pkgrepo::generateHash(const std::string& fileName)
 
     if (1 != EVP_DigestFinal_ex(mdctx, mdValue, &mdLength)) {
         errors();
+        EVP_MD_CTX_free(mdctx);
         throw std::runtime_error("Failed to finalize digest context");
     }
 
@@ -889,7 +893,7 @@ void pkgrepo::generateSign(const std::string& hash)
     }
 
     std::vector<unsigned char> mesBytes(hash.length() / 2);
-    for (size_t i = 0; i < hash.length(); i += 2)
+    for (size_t i = 0; i + 1 < hash.length(); i += 2)
         mesBytes[i / 2] = static_cast<unsigned char>(std::stoi(hash.substr(i, 2), nullptr, 16));
 
     FILE* keyFileStream = fopen(keyfile.c_str(), "r");
@@ -975,7 +979,7 @@ bool pkgrepo::checkSign(const std::string& name)
     keyfile += PUBLICKEY;
 
     std::vector<unsigned char> mesBytes(hash.length() / 2);
-    for (size_t i = 0; i < hash.length(); i += 2)
+    for (size_t i = 0; i + 1 < hash.length(); i += 2)
         mesBytes[i / 2] = static_cast<unsigned char>(std::stoi(hash.substr(i, 2), nullptr, 16));
 
     FILE* keyFileStream = fopen(keyfile.c_str(), "r");
@@ -995,18 +999,20 @@ bool pkgrepo::checkSign(const std::string& name)
     EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
     if (!mdctx) {
         errors();
+        EVP_PKEY_free(key);
         return false;
     }
 
     if (1 != EVP_DigestVerifyInit(mdctx, nullptr, nullptr, nullptr, key)) {
         errors();
         EVP_MD_CTX_free(mdctx);
+        EVP_PKEY_free(key);
         return false;
     }
 
     std::string signature = m_listOfPackages[name].signature();
     std::vector<unsigned char> sigBytes(signature.length() / 2);
-    for (size_t i = 0; i < signature.length(); i += 2)
+    for (size_t i = 0; i + 1 < signature.length(); i += 2)
         sigBytes[i / 2] = static_cast<unsigned char>(std::stoi(signature.substr(i, 2), nullptr, 16));
 
     int verify = EVP_DigestVerify(mdctx, sigBytes.data(), sigBytes.size(), mesBytes.data(), mesBytes.size());
-- 
2.43.0


From d2bdd55ce238f6458207228c0e59b64f7b92e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 22/39] fix: read lines and repository lists within their
 bounds, and only files that could be opened

---
 src/conf.cxx    |  5 ++---
 src/files.cxx   | 11 +++++++++--
 src/list.cxx    |  4 ++--
 src/query.cxx   | 11 +++++++++--
 src/search.cxx  |  2 +-
 src/webrepo.cxx |  2 +-
 6 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 7946c77..ed1d08e 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -18,9 +18,7 @@ void conf::parseConfig()
 	char line[BUFSIZ];
 	std::string s;
 	while (fgets(line, BUFSIZ, fp)) {
-		if (line[strlen(line)-1] == '\n' ) {
-			line[strlen(line)-1] = '\0';
-		}
+		line[strcspn(line, "\n")] = '\0';
 		s = line;
 		bool found = false;
 
@@ -98,6 +96,7 @@ void conf::parseConfig()
 			}
 			m_arch = getMachineType();
 			if ( m_arch== "" ) {
+				fclose(fp);
 				return;
 			}
 			if ( (key == "locale") || (key == "group") ) {
diff --git a/src/files.cxx b/src/files.cxx
index 573fd95..7aed83c 100644
--- a/src/files.cxx
+++ b/src/files.cxx
@@ -28,13 +28,20 @@ void files::parse() {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
         pkgFound = false;
 
-        // Checking file's access already done
         FILE* fp = fopen (s.c_str(),"r");
+        if (!fp) {
+            std::cerr << "Cannot read the file: "
+                << s
+                << std::endl
+                << "... continue with next"
+                << std::endl;
+            continue;
+        }
 
         std::string line(BUFSIZ,'\0');
         char input[BUFSIZ];
         while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
+            input[strcspn(input, "\n")] = '\0';
             line = input;
             if (line[0] == '@')  {
                 pos = line.find(pkgName);
diff --git a/src/list.cxx b/src/list.cxx
index 1e0813a..060fad3 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -50,7 +50,7 @@ void list::parseSets() {
 		const char *end = data + i.sRepo;
 
         while (p < end) {
-            const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+            const char *nl = (const char*)memchr(p, '\n', end - p);
             if (!nl)
                 nl = end;
 
@@ -110,7 +110,7 @@ void list::parse() {
         pkg.col=" ";
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
diff --git a/src/query.cxx b/src/query.cxx
index 29f4279..9b90c7f 100644
--- a/src/query.cxx
+++ b/src/query.cxx
@@ -45,13 +45,20 @@ void query::parse() {
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
 
-        // Checking file's access already done
         FILE* fp = fopen (s.c_str(),"r");
+        if (!fp) {
+            std::cerr << "Cannot read the file: "
+                << s
+                << std::endl
+                << "... continue with next"
+                << std::endl;
+            continue;
+        }
 
         std::string line(BUFSIZ,'\0');
         char input[BUFSIZ];
         while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
+            input[strcspn(input, "\n")] = '\0';
             line = input;
             if (line[0] == '@')  {
                 Pkg.name = line.substr(1);
diff --git a/src/search.cxx b/src/search.cxx
index 00dc6d4..b776cf9 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -44,7 +44,7 @@ void search::parse(){
         pkg.collection=" ";
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
diff --git a/src/webrepo.cxx b/src/webrepo.cxx
index 630d675..abe7980 100644
--- a/src/webrepo.cxx
+++ b/src/webrepo.cxx
@@ -70,7 +70,7 @@ void webrepo::parse() {
 	const char *p = data;
 	const char *end = data + size;
 	while (p < end) {
-	    const char *nl = (const char*)memchr(p, '\n', size);
+	    const char *nl = (const char*)memchr(p, '\n', end - p);
 	    if (!nl)
 		    nl = end;
 
-- 
2.43.0


From a56585ff747c503586a08c4aa7725884959336dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 23/39] fix: close the directories opened and stop on a failed
 pipe or allocation

---
 src/create.cxx     |  5 +++--
 src/file_utils.cxx |  4 ++++
 src/pkgfile.cxx    | 10 +++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index bcd3270..4d3ee7b 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -127,10 +127,11 @@ void create::base()
 bool create::isACollection()
 {
     DIR* d;
-    struct dirent* dir;
     d = opendir(m_argParser.otherArguments()[0].c_str());
-    if (d)
+    if (d) {
+        closedir(d);
         return true;
+    }
 
     return false;
 }
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index b7bc070..6721a9f 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -33,6 +33,8 @@ void * getDatas ( void * var, FILE * file, long offset, size_t size, size_t nmem
   if (fread (mvar, size, nmemb, file) != nmemb)
   {
     printf("Unable to read in 0x%lx bytes", (unsigned long)(size * nmemb));
+    if (var == nullptr)
+      free(mvar);
     return nullptr;
   }
   return mvar;
@@ -215,6 +217,8 @@ void removeFile(const std::string& basedir, const std::string& filename)
 {
   if (filename != basedir && !remove(filename.c_str())) {
     char* path = strdup(filename.c_str());
+    if (path == nullptr)
+      return;
     removeFile(basedir, dirname(path));
     free(path);
   }
diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index dc5cbac..c5ee668 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -17,8 +17,10 @@ std::string pkgfile::getVariable(const std::string& file , const std::string& va
     std::vector<char> buffer(128);
     std::string value;
     FILE* pipe = popen(command.c_str(), "r");
-    if (!pipe)
+    if (!pipe) {
         std::cerr <<  "Failed to open pipe\n";
+        return value;
+    }
 
     // Read the command output
     while (fgets(buffer.data(), buffer.size(), pipe) != nullptr)
@@ -42,10 +44,11 @@ std::string pkgfile::getVariable(const std::string& file , const std::string& va
 bool pkgfile::checkCollectionNameExist(const std::string& collectionName)
 {
     DIR* d;
-    struct dirent* dir;
     d = opendir(collectionName.c_str());
-    if (d)
+    if (d) {
+        closedir(d);
         return true;
+    }
 
     return false;
 }
@@ -173,6 +176,7 @@ void pkgfile::parse()
                 m_listOfPackages[portName] = info;
                 ++index;
             }
+            closedir(d);
         }
     }
     confirmDependencies();
-- 
2.43.0


From 6d8a3f9e887d84d94043f1b822629a014e1feec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 24/39] fix: read ELF files within their bounds

---
 src/runtime_dependencies_utils.cxx | 42 +++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index 9f769c6..11c1c32 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -29,9 +29,11 @@ int get_32bit_elf_header_part(FILE *file)
 {
 	size_t result;
 	buffer_32bits_part = (Elf_Ehdr_32Bit*)malloc(sizeof(elf_header_32bits));
+	if (buffer_32bits_part == NULL)
+		return -1;
 	result = fread (buffer_32bits_part,1,sizeof(elf_header_32bits),file);
 	if (result != sizeof(elf_header_32bits))
-		return error ("Reading error at 32bit_elf_header_part"); 
+		return -1;
 	elf_header_32bits=*buffer_32bits_part;
 	return 0;
 }
@@ -39,9 +41,11 @@ int get_64bit_elf_header_part(FILE *file)
 {
 	size_t result;
 	buffer_64bits_part =(Elf_Ehdr_64Bit*)malloc(sizeof(elf_header_64bits));
+	if (buffer_64bits_part == NULL)
+		return -1;
 	result = fread (buffer_64bits_part,1,sizeof(elf_header_64bits),file);
 	if (result != sizeof(elf_header_64bits))
-		return error("Reading error at 64bit_elf_header_part");
+		return -1;
 	elf_header_64bits=*buffer_64bits_part;
 	return 0;
 }
@@ -73,6 +77,8 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 #ifdef DEBUG
 	printf("sizeof elf_header_begin :%d\n",sizeof(elf_header_begin));
 #endif
+	if (buffer == NULL)
+		return error("Out of mem");
 	// copy the file into the buffer:
 	result = fread (buffer,1,sizeof(elf_header_begin),file);
 	if (result != sizeof(elf_header_begin))
@@ -94,13 +100,17 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
  if ( elf_header_begin.e_ident[EI_CLASS] == ELFCLASS32 )
 /* 32bit elf file */
-    get_32bit_elf_header_part(file);
+    result = get_32bit_elf_header_part(file);
   else
 /* 64 bit elf file */
-    get_64bit_elf_header_part(file);
+    result = get_64bit_elf_header_part(file);
+  if (result != 0)
+    return error("Reading error at elf_header_part");
 
 /* Get the end part of the ELF Header */
 	buffer_end = (Elf_Ehdr_End *)malloc( sizeof(elf_header_end));
+	if (buffer_end == NULL)
+		return error("Out of mem");
 	result = fread (buffer_end,1,sizeof(elf_header_end),file);
 	if (result != sizeof(elf_header_end))
 		return error("Reading error elf_header_end");
@@ -129,6 +139,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 		long str_tab_len = 0;
 		char * name = NULL;
 
+		if (elf_header_end.e_shentsize < sizeof(Elf_Shdr_32) ||
+				elf_header_end.e_phentsize < sizeof(Elf_Phdr_32))
+			return error ("Wrong size of the headers");
+
 		section_headers_32bits = (Elf_Shdr_32 *)getDatas (NULL, file,
 				elf_header_32bits.e_shoff,
 				elf_header_end.e_shentsize,
@@ -215,7 +229,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_32bits;
-				edyn < dynamics_section_32bits + dynamic_size_32bits;
+				edyn < dynamics_section_32bits + dynamic_size_32bits / sizeof(Elf_Dyn_32);
 				edyn ++)
 		{
 			if (edyn->d_tag == DT_NULL)
@@ -223,10 +237,12 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 			
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <  dynamic_strings_length) )
+				if ( ( dynamic_strings != NULL ) && ( offset <  dynamic_strings_length) &&
+					( edyn->d_un.d_val < (unsigned long)dynamic_strings_length ) )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if ( name != NULL  && name[strlen(name)-1] != '.')
+					size_t len = strlen(name);
+					if ( len > 0 && name[len-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
@@ -251,6 +267,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 		long str_tab_len = 0;
 		char * name = NULL;
 
+		if (elf_header_end.e_shentsize < sizeof(Elf_Shdr_64) ||
+				elf_header_end.e_phentsize < sizeof(Elf_Phdr_64))
+			return error ("Wrong size of the headers");
+
 		section_headers_64bits = (Elf_Shdr_64  *)getDatas (NULL, file,
 				elf_header_64bits.e_shoff,
 				elf_header_end.e_shentsize,
@@ -344,7 +364,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_64bits;
-			edyn < dynamics_section_64bits + dynamic_size_64bits;
+			edyn < dynamics_section_64bits + dynamic_size_64bits / sizeof(Elf_Dyn_64);
 			edyn ++)
 		{
 #ifdef DEBUG
@@ -355,10 +375,12 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <	dynamic_strings_length) )
+				if ( ( dynamic_strings != NULL ) && ( offset <	dynamic_strings_length) &&
+					( edyn->d_un.d_val < (unsigned long)dynamic_strings_length ) )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if (name[strlen(name)-1] != '.')
+					size_t len = strlen(name);
+					if (len > 0 && name[len-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
-- 
2.43.0


From 01d6cf602f721be73e623d548e0f39047cbbfc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 25/39] fix: use a database answer only when there is one

---
 src/mysql.cxx | 26 +++++++++++++++++++-------
 src/mysql.h   | 12 ++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/mysql.cxx b/src/mysql.cxx
index 824fc58..b21e348 100644
--- a/src/mysql.cxx
+++ b/src/mysql.cxx
@@ -10,15 +10,19 @@ mysql::mysql(const std::string& configFileName)
 	m_socket=NULL;
 
 	m_connection = mysql_init(NULL);
+	if (!m_connection)
+		throw std::runtime_error("cannot initialise the database connection");
 	mysql_options(m_connection, MYSQL_INIT_COMMAND, "SET NAMES utf8");
-	mysql_real_connect(m_connection,
+	if (!mysql_real_connect(m_connection,
 		m_sqlConfig.hostname().c_str(),
 		m_sqlConfig.username().c_str(),
 		m_sqlConfig.password().c_str(),
 		m_sqlConfig.database().c_str(),
 		m_port_no,
 		m_socket,
-		m_opt);
+		m_opt))
+			std::cout << mysql_error(m_connection)
+				<< std::endl;
 }
 mysql::~mysql()
 {
@@ -34,7 +38,7 @@ void mysql::lastPosts(const char *forum)
 
 	int i = 0;
 
-	while ( i < 10) {
+	while ( i < 10 && i < (int)m_listOfMessages.size()) {
 
 		std::cout			<< "       <div class=\"post-time\">"
 			<< getDateFromEpoch(strtoul(m_listOfMessages[i].poster_time.c_str(),NULL,0))
@@ -79,9 +83,11 @@ void mysql::listOfBoards()
 				std::cout << mysql_error(m_connection)
 					<< std::endl;
 
-	if (res = mysql_use_result(m_connection))
+	if (!(res = mysql_use_result(m_connection))) {
 			std::cout << mysql_error(m_connection)
 				<< std::endl;
+			return;
+	}
 
 	while ((rows = mysql_fetch_row(res)) != NULL) {
 		info.category = rows[2];
@@ -104,9 +110,11 @@ void mysql::listOfCategories()
 			std::cout << mysql_error(m_connection)
 				<< std::endl;
 
-	if(res= mysql_use_result(m_connection))
+	if(!(res= mysql_use_result(m_connection))) {
 		std::cout << mysql_error(m_connection)
 			<< std::endl;
+		return;
+	}
 
 	while ((rows = mysql_fetch_row(res)) != NULL) {
 		m_listOfCategories[ rows[0] ] = rows[1];
@@ -127,9 +135,11 @@ void mysql::listOfMembers()
 			std::cout << mysql_error(m_connection)
 				<< std::endl;
 
-	if(res = mysql_use_result(m_connection))
+	if(!(res = mysql_use_result(m_connection))) {
 		std::cout << mysql_error(m_connection)
 			<< std::endl;
+		return;
+	}
 
 	while (( rows = mysql_fetch_row(res)) != NULL) {
 		member.member_name=rows[1];
@@ -153,9 +163,11 @@ void mysql::listOfMessages()
 			std::cout << mysql_error(m_connection)
 				<< std::endl;
 
-	if(res = mysql_use_result(m_connection))
+	if(!(res = mysql_use_result(m_connection))) {
 		std::cout << mysql_error(m_connection)
 			<< std::endl;
+		return;
+	}
 
 	while (( rows = mysql_fetch_row(res)) !=NULL) {
 		message.id_msg=rows[0];
diff --git a/src/mysql.h b/src/mysql.h
index 5f2f51e..f622069 100644
--- a/src/mysql.h
+++ b/src/mysql.h
@@ -48,11 +48,11 @@ private:
     void listOfMembers();
     void listOfMessages();
 
-    const char* m_hostname;
-    const char* m_database;
-    const char* m_username;
-    const char* m_password;
-    const char* m_socket;
+    const char* m_hostname = nullptr;
+    const char* m_database = nullptr;
+    const char* m_username = nullptr;
+    const char* m_password = nullptr;
+    const char* m_socket = nullptr;
 
     std::vector<std::string> m_list;
 
@@ -60,7 +60,7 @@ private:
         m_port_no = 3306,
         m_opt = 0
     };
-    MYSQL* m_connection;
+    MYSQL* m_connection = nullptr;
     cards::conf m_sqlConfig;
 
     board_t m_listOfBoards;
-- 
2.43.0


From 8326bb1221eb48d0cd73a0d9910bf460fc36349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 26/39] fix: define every attribute and variable before it is
 read

---
 src/argument_parser.h |  6 +++---
 src/cache.h           |  4 ++--
 src/conf.h            |  4 ++--
 src/db.h              |  6 +++---
 src/pkg.h             |  4 ++--
 src/pkgdbh.h          | 14 +++++++-------
 src/pkgfile.h         |  3 ++-
 src/pkginfo.h         |  4 ++--
 src/pkgrepo.h         | 14 +++++++-------
 src/webcards.cxx      |  2 +-
 10 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/argument_parser.h b/src/argument_parser.h
index a1d5d74..e3fa473 100644
--- a/src/argument_parser.h
+++ b/src/argument_parser.h
@@ -110,10 +110,10 @@ public:
 		int id;
 		OPT opt;
 		std::string m_longName;
-		char m_shortName;
+		char m_shortName = 0;
 		std::string m_shortInfo;
 		std::string m_description;
-		bool m_valueRequired;
+		bool m_valueRequired = false;
 		std::string m_valueName;
 
 		bool m_initialized;
@@ -310,7 +310,7 @@ private:
 
 	std::vector<std::string> m_otherArguments;
 	APCmd m_command;
-	CMD m_cmd;
+	CMD m_cmd = CMD_HELP;
 	std::string m_appName;
 
 
diff --git a/src/cache.h b/src/cache.h
index ab61cf9..9826822 100644
--- a/src/cache.h
+++ b/src/cache.h
@@ -10,8 +10,8 @@ namespace cards {
 class cache: public db
 {
 	StatusEnum			m_status;
-	unsigned int long   m_size;
-	bool				m_installed;
+	unsigned int long   m_size = 0;
+	bool				m_installed = false;
 	std::string			m_name;
 	std::string			m_fileName;
 	std::string			m_fileDate;
diff --git a/src/conf.h b/src/conf.h
index 14bc66e..c4f74db 100644
--- a/src/conf.h
+++ b/src/conf.h
@@ -10,8 +10,8 @@ struct DirUrl {
     std::string collection;
     std::string depot;
     std::string url;
-    size_t sFiles;
-    size_t sRepo;
+    size_t sFiles = 0;
+    size_t sRepo = 0;
 
 };
 
diff --git a/src/db.h b/src/db.h
index 57e7740..85309ce 100644
--- a/src/db.h
+++ b/src/db.h
@@ -8,9 +8,9 @@ namespace cards {
 
 class db : public pkg
 {
-	unsigned int			m_space;      // disk occupation onces installed
-	time_t					m_install;    // date of last installation
-	bool					m_dependency; // If TRUE it's automatically installed, it's a dep
+	unsigned int			m_space = 0;      // disk occupation onces installed
+	time_t					m_install = 0;    // date of last installation
+	bool					m_dependency = false; // If TRUE it's automatically installed, it's a dep
 
 	std::set<std::pair<std::string,time_t>>
 							m_dependencies;
diff --git a/src/pkg.h b/src/pkg.h
index 7cb4fb5..ae3f70f 100644
--- a/src/pkg.h
+++ b/src/pkg.h
@@ -17,7 +17,7 @@ class pkg
 	std::string 			m_contributors;
 
 	std::string 			m_version;
-	unsigned short int		m_release;
+	unsigned short int		m_release = 0;
 
 	std::set<std::string>   m_libs;
 	std::set<std::string> 	m_alias;
@@ -37,7 +37,7 @@ class pkg
 	std::string 			m_system;
 
 	std::string 			m_hash;
-	time_t 					m_build;
+	time_t 					m_build = 0;
 
 
 public:
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 28fd85e..0b136b4 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -21,9 +21,9 @@
 typedef std::map<std::string, cards::db> packages_t;
 
 struct rule_t {
-    cards::rule_event_t event;
+    cards::rule_event_t event = cards::LDCONF;
     std::string pattern;
-    bool action;
+    bool action = false;
 };
 
 class pkgdbh {
@@ -31,10 +31,10 @@ class pkgdbh {
     std::set<std::string>   m_filesList;
     std::set<std::string>   m_listOfPackagesNames;
 
-    unsigned int            m_filesNumber;
-    unsigned int            m_installedFilesNumber;
+    unsigned int            m_filesNumber = 0;
+    unsigned int            m_installedFilesNumber = 0;
 
-    bool                    m_dependency;
+    bool                    m_dependency = false;
     bool                    m_DB_Empty;
 
     void                    runLastPostInstall();
@@ -112,8 +112,8 @@ protected:
     std::set<std::pair<std::string, std::set<std::string>>>
                             m_listOfPackagesWithDeps;
 
-    cards::ActionEnum       m_actualAction;
-    cards::ErrorEnum        m_actualError;
+    cards::ActionEnum       m_actualAction{};
+    cards::ErrorEnum        m_actualError{};
 
 public:
     /**
diff --git a/src/pkgfile.h b/src/pkgfile.h
index 9db482b..4a57ef6 100644
--- a/src/pkgfile.h
+++ b/src/pkgfile.h
@@ -42,7 +42,8 @@ class port : public pkg {
 
 public:
     port()
-        : m_level(0)
+        : m_index(0)
+        , m_level(0)
         , m_decount(0)
         , m_decrement(0)
     {
diff --git a/src/pkginfo.h b/src/pkginfo.h
index 7f5a754..97b6521 100644
--- a/src/pkginfo.h
+++ b/src/pkginfo.h
@@ -16,12 +16,12 @@ class pkginfo : public pkgdbh {
 protected:
     std::string     m_arg;
     int             m_runtimedependencies_mode;
-    int             m_runtimelibs_mode;
+    int             m_runtimelibs_mode = 0;
     int             m_footprint_mode;
     int             m_archiveinfo;
     int             m_metainfo;
     int             m_installed_mode;
-    int             m_number_mode;
+    int             m_number_mode = 0;
     int             m_list_mode;
     int             m_owner_mode;
     int             m_details_mode;
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 82be574..8e32db4 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -19,14 +19,14 @@ typedef std::map<std::string, cards::cache> repo_t;
 struct m_package {
 	std::string description;
 	std::string collection;
-	time_t installed_build;
-	time_t available_build;
+	time_t installed_build = 0;
+	time_t available_build = 0;
 	std::string installed_version;
 	std::string available_version;
-	unsigned int installed_space;
-	unsigned int available_space;
-	unsigned int available_size;
-	StatusEnumUpgrade status;
+	unsigned int installed_space = 0;
+	unsigned int available_space = 0;
+	unsigned int available_size = 0;
+	StatusEnumUpgrade status = STATUS_ENUM_UPG_OK;
 
 };
 
@@ -34,7 +34,7 @@ class pkgrepo {
 
     std::string              m_packageName;
     std::string              m_configFileName;
-    cards::ErrorEnum         m_actualError;
+    cards::ErrorEnum         m_actualError{};
     cards::conf              m_config;
     repo_t                   m_listOfPackages;
     packages_t               m_listOfRepoPackages;
diff --git a/src/webcards.cxx b/src/webcards.cxx
index 4f9672a..068d047 100644
--- a/src/webcards.cxx
+++ b/src/webcards.cxx
@@ -123,7 +123,7 @@ string::size_type parseArguments(arguments_t &arguments)
 	/* All the possible arguments */
 	std::set<std::string> listOfArguments;
 	char * pArgument = getenv ("QUERY_STRING");
-	std::string::size_type pos;
+	std::string::size_type pos = std::string::npos;
 	listOfArguments = parseDelimitedSetList(pArgument,"&");
 	arguments.docName="index";
 	for ( auto i : listOfArguments) {
-- 
2.43.0


From bed291b3b229ce78f37cc79f93f4f7dcddfd5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 27/39] fix: do not use file information that could not be
 obtained

---
 src/diff.cxx       | 3 ++-
 src/file_utils.cxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 3aaab25..fa0014a 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -311,7 +311,8 @@ const unsigned int diff::size() {
 const unsigned long long diff::availableSpace()
 {
 	struct statvfs buffer;
-	statvfs("/", &buffer);
+	if (statvfs("/", &buffer) != 0)
+		throw RunTimeErrorWithErrno("could not get the free space of /");
 	return buffer.f_bsize * buffer.f_bavail;
 
 }
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6721a9f..9705deb 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -96,7 +96,8 @@ bool checkRegularFile(const std::string& filename)
 	struct stat buf;
 	if (!checkFileExist(filename))
 		return false;
-	stat(filename.c_str(), &buf);
+	if (stat(filename.c_str(), &buf) != 0)
+		return false;
 	return (S_ISREG(buf.st_mode));
 
 }
-- 
2.43.0


From 9b5e32a5821de65bfe3f252fa049002a8c8ef2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 28/39] fix: run a trigger only for files a rule of pkgadd.conf
 names

---
 src/pkgadd.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index a163946..2ea51b5 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -240,6 +240,7 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 		else
 			non_install_set.insert(i);
 
+		bool trigger = false;
 		std::pair <std::string, int> a;
 		for (std::vector<rule_t>::reverse_iterator j = scripts_found.rbegin();
 		j != scripts_found.rend();
@@ -248,11 +249,11 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 			a.second=(*j).event;
 
 			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
+				trigger = (*j).action;
 				break;
 				}
 		}
-		if (install_file) {
+		if (trigger) {
 			if ( a.second == cards::LDCONF ) {
 				a.first="";
 			} else {
-- 
2.43.0


From a28d011676d8bac1f89b5c4ec5c5405cf1e13031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 29/39] fix: do not format a date that cannot be represented

---
 src/file_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 9705deb..83952f3 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -62,7 +62,7 @@ std::string getDateFromEpoch(const time_t& epoch)
 {
 	const struct tm* time = localtime(&epoch);
 	char datetime[100] = {0};
-	if ( strftime(datetime, 100, "%c", time) > 0 )
+	if ( time != nullptr && strftime(datetime, 100, "%c", time) > 0 )
 		return datetime;
 	else
 		return "";
-- 
2.43.0


From 9e55c8d772558d710f7fba2792cac5f95e8e57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 30/39] fix: do not read an archive without a reader

---
 src/archive.cxx |  2 ++
 src/pkgdbh.cxx  | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index aa02b1e..0bc55b7 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -79,6 +79,8 @@ void archive::extractFileContent
     struct archive_entry* ae;
 
     ar = archive_read_new();
+    if (ar == nullptr)
+        throw std::bad_alloc();
     INIT_ARCHIVE(ar);
     if (archive_read_open_filename(ar,
             m_fileName.c_str(),
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index c6fdadf..ac50f0c 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1185,6 +1185,8 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	struct archive* archive;
 	struct archive_entry* entry;
 	archive = archive_read_new();
+	if (archive == nullptr)
+		throw std::bad_alloc();
 	INIT_ARCHIVE(archive);
 	if (archive_read_open_filename(archive,
 		filename.c_str(),
@@ -1246,6 +1248,8 @@ void pkgdbh::installArchivePackage
 	std::string absm_root;
 
 	archive = archive_read_new();
+	if (archive == nullptr)
+		throw std::bad_alloc();
 	INIT_ARCHIVE(archive);
 
 	if (archive_read_open_filename(archive,
@@ -1563,6 +1567,8 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 	//
 	// FIXME the code duplication here is butt ugly
 	archive = archive_read_new();
+	if (archive == nullptr)
+		throw std::bad_alloc();
 	INIT_ARCHIVE(archive);
 
 	if (archive_read_open_filename(archive,
@@ -1599,6 +1605,8 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 	// Too bad, there doesn't seem to be a way to reuse our archive
 	// instance
 	archive = archive_read_new();
+	if (archive == nullptr)
+		throw std::bad_alloc();
 	INIT_ARCHIVE(archive);
 
 	if (archive_read_open_filename(archive,
@@ -1654,7 +1662,8 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 		// Special cases
 		if (S_ISLNK(mode)) {
 			// Symlink
-			std::cout << " -> " << archive_entry_symlink(entry);
+			const char* target = archive_entry_symlink(entry);
+			std::cout << " -> " << (target ? target : "");
 		} else if (S_ISCHR(mode) ||
 		           S_ISBLK(mode)) {
 			// Device
-- 
2.43.0


From f248c8fc19619d028665bf7381764367af15ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 31/39] fix: close the build log of a port before opening the
 next one

---
 src/create.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 4d3ee7b..0660932 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -220,7 +220,7 @@ void create::installDependencies(std::string& packageName)
                         commandName = "ADD: ";
                         message = commandName + packageFile;
                         m_packageArchiveName = packageFile;
-                        if (!m_fdlog != -1) {
+                        if (m_fdlog != -1) {
                             write(m_fdlog, message.c_str(), message.length());
                             write(m_fdlog, "\n", 1);
                         }
@@ -233,7 +233,7 @@ void create::installDependencies(std::string& packageName)
                                 commandName = "ADD: ";
                                 message = commandName + packageFile;
                                 m_packageArchiveName = packageFile;
-                                if (!m_fdlog != -1) {
+                                if (m_fdlog != -1) {
                                     write(m_fdlog, message.c_str(), message.length());
                                     write(m_fdlog, "\n", 1);
                                 }
@@ -553,6 +553,8 @@ void create::buildBinary(std::string packageName)
             + ".log";
 
         unlink(logFile.c_str());
+        if (m_fdlog != -1)
+            close(m_fdlog);
         m_fdlog = open(logFile.c_str(), O_APPEND | O_WRONLY | O_CREAT, 0666);
         if (m_fdlog == -1) {
             m_actualError = ERROR_ENUM_CANNOT_OPEN_FILE;
-- 
2.43.0


From fdeba799758b71f22308cb34e187e537ebfaf471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 32/39] fix: formats that did not agree with their arguments

---
 src/pkgdbh.cxx   | 4 ++--
 src/webcards.cxx | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index ac50f0c..336ac49 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -228,7 +228,7 @@ void pkgdbh::progressInfo()
 			break;
 		case ACTION_ENUM_DB_OPEN_RUN:
 			j++;
-			printf("%3u%%\b\b\b\b",
+			printf("%3zu%%\b\b\b\b",
 				( j * 100 ) / m_listOfPackagesNames.size() );
 			break;
 		case ACTION_ENUM_DB_OPEN_END:
@@ -300,7 +300,7 @@ void pkgdbh::progressInfo()
 			break;
 		case ACTION_ENUM_RM_PKG_FILES_RUN:
 			j++;
-			printf("%3u%%\b\b\b\b",
+			printf("%3zu%%\b\b\b\b",
 				( j * 100 ) / m_filesList.size() );
 			break;
 		case ACTION_ENUM_RM_PKG_FILES_END:
diff --git a/src/webcards.cxx b/src/webcards.cxx
index 068d047..e067f6e 100644
--- a/src/webcards.cxx
+++ b/src/webcards.cxx
@@ -114,7 +114,7 @@ void visitOfPage(char * argument)
 		time_t timer;
 		time(&timer);
 		fseek(pVisits,0,SEEK_END);
-		fprintf(pVisits,"%d,%s\n",timer,argument);
+		fprintf(pVisits,"%ld,%s\n",(long)timer,argument);
 		fclose(pVisits);
 	}
 }
-- 
2.43.0


From 651ab16da0b0222ae91ea633793d4d3fe0af026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 33/39] fix: packages pulled in are marked as such, requested
 ones are not

---
 src/install.cxx | 3 ++-
 src/pkgrepo.cxx | 5 ++++-
 src/upgrade.cxx | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/install.cxx b/src/install.cxx
index abb288d..785959b 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -82,7 +82,8 @@ install::install(const CardsArgumentParser& argParser,
 		} else {
 			m_upgrade = false;
 		}
-		if (i.second > 0)
+		// An installed package keeps what is recorded about it
+		if (!m_upgrade && i.second > 0)
 			setDependency();
 		p += "("
 			+ packageArchive.collection()
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 0d0995d..f937a5c 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -246,8 +246,11 @@ void pkgrepo::generateDependencies()
          vrit != depencenciestoSort.rend();
          ++vrit) {
         found = false;
-        for (auto i : m_dependenciesList) {
+        for (auto& i : m_dependenciesList) {
             if (i.first == vrit->first) {
+                // Requested as well: not only a dependency
+                if (vrit->second == 0)
+                    i.second = 0;
                 found = true;
                 break;
             }
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 334e46a..a670f5f 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -142,8 +142,11 @@ void upgrade::upgradePackages()
 		m_force=true;
 		if (checkPackageNameExist(i.first))
 			m_upgrade=true;
-		else
+		else {
 			m_upgrade=false;
+			if (i.second > 0)
+				setDependency();
+		}
 
 		run();
 		std::string p = i.first
-- 
2.43.0


From 80e6e91fbb8acf118b445756ef0ab91d7d5e9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 34/39] fix: purge never takes a nameless collection for its
 depot or the root

A line such as 'dir packages|http://...' has neither depot nor
collection: purge then removed every file below "/".
---
 src/conf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conf.cxx b/src/conf.cxx
index ed1d08e..c470a9d 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -179,6 +179,10 @@ void conf::purge()
 		if (collection.url.size() == 0 )
 			continue;
 
+		// Without a name, the path is the one of the depot, or even "/"
+		if (collection.collection.empty())
+			continue;
+
 		findRecursiveFile(listOfFiles, path.c_str(),WS_DEFAULT);
 		for (auto file : listOfFiles)
 			remove(file.c_str());
-- 
2.43.0


From a6fc9e3f223dd1bff20c46ccb540307e654109ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:00 +0000
Subject: [PATCH 35/39] fix: ultos: leave room for the terminating zero of a 20
 digit number

---
 src/string_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils.cxx b/src/string_utils.cxx
index 10365cc..6b6924d 100644
--- a/src/string_utils.cxx
+++ b/src/string_utils.cxx
@@ -113,7 +113,7 @@ std::string itos(unsigned int value)
 
 std::string ultos(unsigned long int value)
 {
-	static char buf[20];
+	static char buf[21];
 	sprintf(buf, "%lu", value);
 	return buf;
 }
-- 
2.43.0


From aed26d2f121769b81605b857936e34e28f8ff60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:09 +0000
Subject: [PATCH 36/39] fix: a run time dependency record too short for its
 date is skipped

---
 src/archive.cxx | 2 +-
 src/pkgdbh.cxx  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 0bc55b7..9f7efec 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -115,7 +115,7 @@ void archive::getRunTimeDependenciesEpoch()
 {
     std::pair<std::string, time_t> NameEpoch;
     for (auto dependency : m_contentMeta) {
-        if (dependency[0] == 'R') {
+        if (dependency[0] == 'R' && dependency.size() > 10) {
             NameEpoch.first = dependency.substr(1, dependency.size() - 11);
             NameEpoch.second = strtoul((dependency.substr(dependency.size() - 10)).c_str(), NULL, 0);
             m_rtDependenciesEpochList.insert(NameEpoch);
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 336ac49..47e7989 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -567,6 +567,8 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case RUNTIME_DEPENDENCY:
+					if (s.size() < 11)
+						continue;
 					std::pair<std::string,time_t > NameEpoch;
 					NameEpoch.first=s.substr(1,s.size()-11);
 					NameEpoch.second=strtoul((s.substr(s.size()-10)).c_str(),nullptr,0);
-- 
2.43.0


From e3cdef50af8ec62de6e0f21bdad0a8cca0ed743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 37/39] fix: an empty file name has no last character

---
 src/pkgdbh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 47e7989..fce3d92 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1100,7 +1100,7 @@ pkgdbh::getConflictsFilesList (const std::string& name, cards::db& info)
 	// Exclude directories
 	std::set<std::string> tmp = files;
 	for (auto i : tmp) {
-		if (i[i.length() - 1] == '/')
+		if (!i.empty() && i[i.length() - 1] == '/')
 			files.erase(i);
 	}
 
-- 
2.43.0


From d99c5ec9350ea5b216170c6796cd1e509e21aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:28 +0000
Subject: [PATCH 38/39] fix: getKeysList: a line without the delimiter is a key
 of its own

---
 src/string_utils.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_utils.cxx b/src/string_utils.cxx
index 6b6924d..7f8a819 100644
--- a/src/string_utils.cxx
+++ b/src/string_utils.cxx
@@ -55,7 +55,8 @@ std::set<std::string> getKeysList(std::string file, std::string delimiter)
       getline(in, line);
       if ((line[0] != '#' ) && ( line.find(delimiter) > 0) && ( line.size() > 0)) {
         property = line;
-        property.erase(property.find(delimiter),property.size());
+        if (property.find(delimiter) != std::string::npos)
+          property.erase(property.find(delimiter),property.size());
         parameter_list.insert(property);
       }
     }
-- 
2.43.0


From 874c7c004efd289a9fb3ad6bc907e5b5c62e509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:19 +0000
Subject: [PATCH 39/39] fix: cards install and upgrade with --root look at the
 packages installed in that root

---
 src/cards_argument_parser.cxx | 7 +++++++
 src/cards_argument_parser.h   | 3 +++
 src/diff.cxx                  | 3 ++-
 src/install.cxx               | 2 +-
 src/pkgdbh.cxx                | 4 ++++
 src/pkgdbh.h                  | 5 +++++
 src/pkgrepo.cxx               | 3 ++-
 src/pkgrepo.h                 | 2 +-
 src/upgrade.cxx               | 2 +-
 9 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/cards_argument_parser.cxx b/src/cards_argument_parser.cxx
index db46c2f..7521ce9 100644
--- a/src/cards_argument_parser.cxx
+++ b/src/cards_argument_parser.cxx
@@ -298,3 +298,10 @@ As for the generation, a private key is needed, it is used by the packager only.
     addOption(CMD_REPO,OPT_CONFIG_FILE,false);
 
 }
+
+std::string CardsArgumentParser::root() const
+{
+    if (isSet(OPT_ROOT))
+        return getOptionValue(OPT_ROOT) + "/";
+    return "/";
+}
diff --git a/src/cards_argument_parser.h b/src/cards_argument_parser.h
index 8063716..4384dcb 100644
--- a/src/cards_argument_parser.h
+++ b/src/cards_argument_parser.h
@@ -10,6 +10,9 @@ class CardsArgumentParser : public ArgParser
 		CardsArgumentParser();
 		virtual ~CardsArgumentParser() {};
 
+		// The root asked for, with a separator at its end
+		std::string root() const;
+
 		static ArgParser::APOpt OPT_DOWNLOAD_ONLY;
 		static ArgParser::APOpt OPT_DOWNLOAD_READY;
 		static ArgParser::APOpt OPT_NO_SYNC;
diff --git a/src/diff.cxx b/src/diff.cxx
index fa0014a..7889513 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -8,7 +8,7 @@ diff::diff(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
 	: m_config(configFileName)
 	, m_sync(configFileName,argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.root())
 	, m_argParser(argParser)
 	, m_packagesConflict(0)
 	, m_packagesReplace(0)
@@ -19,6 +19,7 @@ diff::diff(const CardsArgumentParser& argParser,
 	, m_packagesNew(0)
 	, m_packagesOK(0)
 {
+    m_root = argParser.root();
     buildDatabase(false);
 
 	m_package packageNameToDeal;
diff --git a/src/install.cxx b/src/install.cxx
index 785959b..1ee7043 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -6,7 +6,7 @@ namespace cards {
 
 install::install(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
-	: m_pkgrepo(configFileName)
+	: m_pkgrepo(configFileName, argParser.root())
 	, m_argParser(argParser)
 	, m_configFileName(configFileName)
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index fce3d92..e7dbe6f 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -32,6 +32,10 @@ pkgdbh::~pkgdbh()
 		runLastPostInstall();
 		void closelog(void);
 }
+void pkgdbh::setRoot(const std::string& root)
+{
+	m_root = root;
+}
 void pkgdbh::parseArguments(int argc, char** argv)
 {
 	for (int i = 1; i < argc; i++) {
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 0b136b4..8eee345 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -127,6 +127,11 @@ public:
     */
     virtual                 ~pkgdbh();
 
+    /**
+     * The directory, with a separator at its end, whose database is used
+     */
+    void                    setRoot(const std::string& root);
+
     /**
      *  Following methods can be redefined in derivated class
      *
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index f937a5c..ef3baac 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -4,10 +4,11 @@
 
 namespace cards {
 
-pkgrepo::pkgrepo(const std::string& fileName)
+pkgrepo::pkgrepo(const std::string& fileName, const std::string& root)
     : m_configFileName(fileName)
     , m_config(fileName)
 {
+    m_dbh.setRoot(root);
     m_dbh.buildDatabase(false);
     parse();
     OpenSSL_add_all_digests();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 8e32db4..69ff6a5 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -71,7 +71,7 @@ class pkgrepo {
     void                     errors();
 
 public:
-    pkgrepo(const std::string& fileName);
+    pkgrepo(const std::string& fileName, const std::string& root = "/");
     virtual ~pkgrepo() { ERR_free_strings(); }
 
 	/**
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index a670f5f..17b3c4f 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -8,7 +8,7 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	const std::string& configFileName)
 	: m_argParser(argParser)
 	, m_diff(argParser,configFileName)
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.root())
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-- 
2.43.0

