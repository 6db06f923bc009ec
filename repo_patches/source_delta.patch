From 4048a53da31e2c7d37c21bb546bfadab009c51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 01/42] fix: rmdir of a non-empty directory lost the directory
 in the full format

vrmdir removed the directory entry before it found out that the directory
still has children, so that the failing rmdir detached the whole subtree.
---
 sources/full_format.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..7d93556 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -229,19 +229,24 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
     id_type id;
     int type;
 
+    FileLockGuard dir_lg(*dirholder);
+    auto dir = dirholder->cast_as<Directory>();
+    if (!dir->get_entry(last_component, id, type))
     {
-        FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
-        {
-            return -ENOENT;
-        }
+        return -ENOENT;
+    }
+    if (type != Directory::class_type())
+    {
+        return -ENOTDIR;
     }
 
     auto fp = ft_->open_as(id, type);
     FileLockGuard lg(*fp);
-    fp->cast_as<Directory>()->iterate_over_entries(
-        [](const std::string& name, const id_type& id, int type) -> bool
-        { throwVFSException(ENOTEMPTY); });
+    if (!fp->cast_as<Directory>()->empty())
+    {
+        return -ENOTEMPTY;
+    }
+    dir->remove_entry(last_component, id, type);
     fp->unlink();
     return 0;
 };
-- 
2.43.0


From c72ad45be17896bd6d0eb09e20c3063a61acaa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 02/42] fix: rename in the full format replaced non-empty
 directories

The destination entry was removed whatever it was, so that renaming a
directory over a non-empty one silently dropped everything below it. Check
the destination before anything is changed.
---
 sources/full_format.cpp | 51 ++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 7d93556..20b7d8b 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -335,30 +335,55 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
 
     id_type from_id, to_id;
     int from_type, to_type;
-    bool has_to_item = false;
+    std::optional<FilePtrHolder> to_holder;
 
     {
         DoubleFileLockGuard lg(*base_from, *base_to);
+        auto dir_from = base_from->cast_as<Directory>();
+        auto dir_to = base_to->cast_as<Directory>();
 
-        if (!base_from->cast_as<Directory>()->remove_entry(last_from, from_id, from_type))
+        auto from_entry = dir_from->get_entry(last_from, from_id, from_type);
+        if (!from_entry)
         {
             return -ENOENT;
         }
-        has_to_item = base_to->cast_as<Directory>()->remove_entry(last_to, to_id, to_type);
-        if (has_to_item && from_id == to_id)
+        std::string from_name(*from_entry);
+        auto to_entry = dir_to->get_entry(last_to, to_id, to_type);
+        if (to_entry && from_id == to_id)
         {
-            // Cannot rename a hardlink onto itself
-            base_from->cast_as<Directory>()->add_entry(last_from, from_id, from_type);
-            base_to->cast_as<Directory>()->add_entry(last_to, to_id, to_type);
-            return 0;
+            if (dir_from != dir_to || from_name != *to_entry)
+            {
+                // Cannot rename a hardlink onto itself
+                return 0;
+            }
+            // Otherwise only the spelling of the name changes.
+        }
+        else if (to_entry)
+        {
+            bool from_is_dir = from_type == Directory::class_type();
+            bool to_is_dir = to_type == Directory::class_type();
+            if (from_is_dir != to_is_dir)
+            {
+                return to_is_dir ? -EISDIR : -ENOTDIR;
+            }
+            to_holder = ft_->open_as(to_id, to_type);
+            if (to_is_dir)
+            {
+                FileLockGuard inner_lg(**to_holder);
+                if (!(**to_holder).cast_as<Directory>()->empty())
+                {
+                    return -ENOTEMPTY;
+                }
+            }
+            dir_to->remove_entry(last_to, to_id, to_type);
         }
-        base_to->cast_as<Directory>()->add_entry(last_to, from_id, from_type);
+        dir_from->remove_entry(last_from, from_id, from_type);
+        dir_to->add_entry(last_to, from_id, from_type);
     }
-    if (has_to_item)
+    if (to_holder)
     {
-        auto holder = ft_->open_as(to_id, to_type);
-        FileLockGuard lg(*holder);
-        holder->unlink();
+        FileLockGuard lg(**to_holder);
+        (**to_holder).unlink();
     }
     return 0;
 };
-- 
2.43.0


From da308f518131ad9f0e79efeb7c6d2cd2fafa1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 03/42] fix: O_TRUNC in the lite format cut off the header of
 files in use

Opening with O_TRUNC truncated the underlying file to zero bytes and wrote a
new header, while other open handles kept the session key derived from the old
one: what they wrote afterwards could not be read back.
---
 sources/lite_format.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..646b57e 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1169,6 +1169,10 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
     {
         mode |= S_IRUSR;
     }
+    // The underlying file must keep its header, because other handles to the same file have already
+    // derived their session keys from it. Only the content is truncated below.
+    const bool should_truncate = (flags & O_TRUNC) != 0;
+    flags &= ~O_TRUNC;
     std::unique_ptr<File> fp;
 
     process_possible_long_name(
@@ -1177,7 +1181,7 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         [&](std::string&& enc_path)
         { fp = std::make_unique<File>(root_->open_file_stream(enc_path, flags, mode), *opener_); });
 
-    if (flags & O_TRUNC)
+    if (should_truncate)
     {
         LockGuard<File> lock_guard(*fp, true);
         fp->resize(0);
-- 
2.43.0


From 4d824de727c1f5a6e74dd6e05a446ce45be4ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 04/42] fix: failing rmdir in the lite format destroyed the
 long name table

rmdir of a non-empty directory removed .long_names.db before it failed, so
that all the long names in the directory vanished.
---
 sources/lite_format.cpp | 30 ++++++++++++++++++++++++++++--
 sources/lite_format.h   |  4 ++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 646b57e..3ff9b1e 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -962,8 +962,7 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
-                                   root_->remove_file_nothrow(
-                                       absl::StrCat(enc_path, "/", kLongNameTableFileName));
+                                   remove_long_name_table_of_empty_dir(enc_path);
                                    root_->remove_directory(enc_path);
                                });
     return 0;
@@ -1193,6 +1192,33 @@ std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_pa
     return root_->norm_path_narrowed(
         absl::StrCat(name_trans_->remove_last_component(enc_path), "/", kLongNameTableFileName));
 }
+void FuseHighLevelOps::remove_long_name_table_of_empty_dir(const std::string& enc_dir)
+{
+    if (name_trans_->is_no_op())
+    {
+        return;
+    }
+    std::vector<std::string> table_files;
+    auto traverser = root_->create_traverser(enc_dir);
+    std::string name;
+    while (traverser->next(&name, nullptr))
+    {
+        if (name == "." || name == "..")
+        {
+            continue;
+        }
+        // Besides the table itself, SQLite may have left its journal behind.
+        if (!absl::StartsWith(name, kLongNameTableFileName))
+        {
+            throwVFSException(ENOTEMPTY);
+        }
+        table_files.push_back(name);
+    }
+    for (const auto& file : table_files)
+    {
+        root_->remove_file(absl::StrCat(enc_dir, "/", file));
+    }
+}
 void FuseHighLevelOps::process_possible_long_name(
     absl::string_view path,
     LongNameComponentAction action,
diff --git a/sources/lite_format.h b/sources/lite_format.h
index c8abcae..d1a9f8e 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -429,6 +429,10 @@ private:
                                     absl::FunctionRef<void(std::string&& enc_path)> callback);
 
     std::string long_name_table_file_name(absl::string_view enc_path);
+
+    /// @brief Removes the lookup table of a directory which has no other content. Throws ENOTEMPTY,
+    /// and leaves the table alone, if there is any.
+    void remove_long_name_table_of_empty_dir(const std::string& enc_dir);
 };
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From bb6f122d01f3239d31370ecfa35303b0078fb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 05/42] fix: renames in the lite format lost long names and
 spurious ENOTEMPTY

Renaming a hard link onto another link of the same file is a no-op for the file
system, but the long name was removed from the lookup table. An empty directory
which still has a lookup table could not be replaced by a rename.
---
 sources/lite_format.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3ff9b1e..007d430 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1021,6 +1021,22 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     auto enc_from = name_trans_->encrypt_full_path(from, &encrypted_last_component_from);
     auto enc_to = name_trans_->encrypt_full_path(to, &encrypted_last_component_to);
 
+    fuse_stat st_from{}, st_to{};
+    if (!name_trans_->is_no_op() && root_->stat(enc_to, &st_to) && root_->stat(enc_from, &st_from))
+    {
+        if (st_from.st_dev == st_to.st_dev && st_from.st_ino == st_to.st_ino)
+        {
+            // Both are links to the same file, in which case rename must do nothing. In particular,
+            // both names must stay in the lookup table.
+            return 0;
+        }
+        if ((st_from.st_mode & S_IFMT) == S_IFDIR && (st_to.st_mode & S_IFMT) == S_IFDIR)
+        {
+            // The directory to be replaced may contain nothing but its lookup table.
+            remove_long_name_table_of_empty_dir(enc_to);
+        }
+    }
+
     if (encrypted_last_component_from.empty() && encrypted_last_component_to.empty())
     {
         // Neither are long name, so fast path.
-- 
2.43.0


From 31dddffc12f7e3a5b382447295810eb0b58afc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 06/42] fix: extended attributes in the lite format

getxattr failed when the caller's buffer was larger than the value, and setting
an empty value was silently ignored.
---
 sources/lite_format.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 007d430..3a5ef07 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1128,9 +1128,10 @@ int FuseHighLevelOps::vgetxattr(const char* path,
     {
         return static_cast<int>(rc);
     }
-    xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
-    return static_cast<int>(xattr_->infer_decrypted_size(rc));
+    // The buffer may be larger than the value.
+    auto value_size = xattr_->infer_decrypted_size(rc);
+    xattr_->decrypt(underlying_data.data(), rc, reinterpret_cast<byte*>(value), value_size);
+    return static_cast<int>(value_size);
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
                                 const char* name,
@@ -1144,7 +1145,7 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value)
     {
         return 0;
     }
-- 
2.43.0


From fe3f17fe61b6b02e6c781560043bca50f9924e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 07/42] fix: utimens in the full format stored uninitialised
 times

With store_time, the current time was never read, and UTIME_NOW and UTIME_OMIT
were stored literally.
---
 sources/files.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..8ecce4c 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -332,16 +332,37 @@ ssize_t FileBase::getxattr(const char* name, char* value, size_t size)
     return true_size;
 }
 
+namespace
+{
+    template <class Setter>
+    void set_time(const fuse_timespec& requested, const fuse_timespec& current, Setter&& setter)
+    {
+#if defined(UTIME_NOW) && defined(UTIME_OMIT)
+        if (requested.tv_nsec == UTIME_OMIT)
+        {
+            return;
+        }
+        if (requested.tv_nsec == UTIME_NOW)
+        {
+            setter(current);
+            return;
+        }
+#endif
+        setter(requested);
+    }
+}    // namespace
+
 void FileBase::utimens(const fuse_timespec* ts)
 {
     if (m_store_time)
     {
         fuse_timespec current_time;
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-            set_atime(ts[0]);
-            set_mtime(ts[1]);
+            set_time(ts[0], current_time, [this](const fuse_timespec& t) { set_atime(t); });
+            set_time(ts[1], current_time, [this](const fuse_timespec& t) { set_mtime(t); });
         }
         else
         {
-- 
2.43.0


From 027e0cdde808e38b35c22264f0617a2f8939bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 08/42] fix: rename with differently spelled paths could detach
 a directory or deadlock

On a case insensitive full format file system, renaming a directory into itself
through another spelling of its name made everything below it unreachable, and
renaming an entry onto its own parent locked the parent twice.
---
 sources/full_format.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 20b7d8b..68233c5 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -330,6 +330,21 @@ int FuseHighLevelOps::vreadlink(const char* path, char* buf, size_t size, const
 };
 int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_context* ctx)
 {
+    // The kernel refuses to move a directory into itself, but it does not recognise the directory
+    // when the two paths spell its name differently on a case insensitive file system.
+    if (auto source = open_all(from); source && (**source).type() == Directory::class_type())
+    {
+        std::string_view dest(to);
+        for (auto pos = dest.find('/', 1); pos != dest.npos; pos = dest.find('/', pos + 1))
+        {
+            auto ancestor = open_all(dest.substr(0, pos));
+            if (ancestor && (**ancestor).get_id() == (**source).get_id())
+            {
+                return -EINVAL;
+            }
+        }
+    }
+
     auto [base_from, last_from] = open_base(from);
     auto [base_to, last_to] = open_base(to);
 
@@ -366,6 +381,11 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
             {
                 return to_is_dir ? -EISDIR : -ENOTDIR;
             }
+            if (to_id == base_from->get_id())
+            {
+                // The destination contains the source, and it is already locked.
+                return -ENOTEMPTY;
+            }
             to_holder = ft_->open_as(to_id, to_type);
             if (to_is_dir)
             {
-- 
2.43.0


From 47046e0c446bfbfff0c5a0ebfafd661733d764f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 09/42] fix: a crash could leave long names of the lite format
 out of listings

The new name entered the lookup table only after the entry had been created, so that an
interruption (or a failing commit) in between left an entry that no listing shows.
---
 sources/lite_format.cpp                 | 14 ++++++++++----
 sources/lite_long_name_lookup_table.cpp |  6 ++++++
 sources/lite_long_name_lookup_table.h   |  3 +++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3a5ef07..f7747ba 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1048,14 +1048,17 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
                                     long_name_table_file_name(enc_to));
     LockGuard<decltype(table)> lg(table);
 
-    if (!encrypted_last_component_from.empty())
-    {
-        table.remove_mapping_from_from_db(name_trans_->get_last_component(enc_from));
-    }
+    // A mapping without its entry is harmless, but an entry without its mapping cannot be listed. So
+    // the new mapping must be stored before the entry appears under its new name.
     if (!encrypted_last_component_to.empty())
     {
         table.update_mapping_to_to_db(name_trans_->get_last_component(enc_to),
                                       encrypted_last_component_to);
+        table.commit_and_begin();
+    }
+    if (!encrypted_last_component_from.empty() && enc_from != enc_to)
+    {
+        table.remove_mapping_from_from_db(name_trans_->get_last_component(enc_from));
     }
     root_->rename(enc_from, enc_to);
     return 0;
@@ -1261,6 +1264,9 @@ void FuseHighLevelOps::process_possible_long_name(
     {
     case LongNameComponentAction::kCreate:
         table.update_mapping(name_trans_->get_last_component(enc_path), encrypted_last_component);
+        // The mapping must be stored before the entry is created: an entry without its mapping
+        // cannot be listed, whereas a mapping without its entry is harmless.
+        table.commit_and_begin();
         break;
     case LongNameComponentAction::kDelete:
         table.remove_mapping(name_trans_->get_last_component(enc_path));
diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 119eb44..d179cb0 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -98,6 +98,12 @@ void LongNameLookupTable::remove_mapping(std::string_view keyed_hash)
 
 void internal::LookupTableBase::begin() { db_.exec("begin;"); }
 
+void internal::LookupTableBase::commit_and_begin()
+{
+    db_.exec("commit;");
+    begin();
+}
+
 void internal::LookupTableBase::finish() noexcept
 {
     try
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 22be010..973fb43 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -29,6 +29,9 @@ namespace internal
             db_.mutex().Unlock();
         }
 
+        ///@brief Commits the changes made so far, and starts a new transaction for the rest.
+        void commit_and_begin() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
     protected:
         SQLiteDB db_ ABSL_GUARDED_BY(*this);
 
-- 
2.43.0


From 09e4a1754c2a78eac5f55da2e6f35449b3f0775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 10/42] fix: after a crash, long names of the lite format
 vanished from listings

A hot journal in the directory made every lookup through the read only connection fail.
---
 sources/lite_long_name_lookup_table.cpp | 18 +++++++++++++++++-
 sources/sqlite_helper.cpp               |  2 ++
 sources/sqlite_helper.h                 |  4 ++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index d179cb0..c19d552 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -44,11 +44,27 @@ LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool reado
         SQLITE_OPEN_NOMUTEX
             | (readonly ? SQLITE_OPEN_READONLY : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
         nullptr);
+    db_.set_timeout(2000);
     if (!readonly)
     {
         db_.exec(kCreateTableInMainDb);
+        return;
+    }
+    try
+    {
+        db_.exec("pragma main.schema_version;");
+    }
+    catch (const SQLiteException& e)
+    {
+        if ((e.code() & 0xff) != SQLITE_READONLY)
+        {
+            throw;
+        }
+        // A crash has left a transaction behind, which must be rolled back before anything can be
+        // read. A read only connection is unable to do so.
+        db_ = SQLiteDB(filename.c_str(), SQLITE_OPEN_NOMUTEX | SQLITE_OPEN_READWRITE, nullptr);
+        db_.set_timeout(2000);
     }
-    db_.set_timeout(2000);
 }
 
 LongNameLookupTable::~LongNameLookupTable() {}
diff --git a/sources/sqlite_helper.cpp b/sources/sqlite_helper.cpp
index a47f2e0..5dfbe2c 100644
--- a/sources/sqlite_helper.cpp
+++ b/sources/sqlite_helper.cpp
@@ -8,11 +8,13 @@ namespace securefs
 
 SQLiteException::SQLiteException(int code)
     : runtime_error(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errstr(code)))
+    , code_(code)
 {
 }
 
 SQLiteException::SQLiteException(sqlite3* db, int code)
     : runtime_error(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errmsg(db)))
+    , code_(code)
 {
 }
 
diff --git a/sources/sqlite_helper.h b/sources/sqlite_helper.h
index 83016db..1532f12 100644
--- a/sources/sqlite_helper.h
+++ b/sources/sqlite_helper.h
@@ -83,9 +83,13 @@ private:
 
 class SQLiteException : public std::runtime_error
 {
+private:
+    int code_;
+
 public:
     explicit SQLiteException(int code);
     explicit SQLiteException(sqlite3* db, int code);
+    int code() const noexcept { return code_; }
 };
 
 void check_sqlite_call(int code);
-- 
2.43.0


From 20ecc10db375da96b2fc52e8f7cec7f92e0ec5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 11/42] fix: an interrupted creation could leave a lite file
 that cannot be opened or removed

The id and the padding were written separately, and a file with only one of them is invalid.
---
 sources/lite_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 72bdc47..507de42 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -100,14 +100,16 @@ AESGCMCryptStream::AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
     if (rc == 0)
     {
         generate_random(id.data(), id.size());
-        m_stream->write(id.data(), 0, id.size());
         m_padding_size = calc.compute_padding(id);
         m_auxiliary.resize(sizeof(std::uint32_t) + m_padding_size, 0);
         if (m_padding_size)
         {
             generate_random(m_auxiliary.data(), m_auxiliary.size());
-            m_stream->write(m_auxiliary.data() + sizeof(std::uint32_t), id.size(), m_padding_size);
         }
+        // The header is written at once, because a stream with half a header can never be opened.
+        std::vector<byte> header(id.begin(), id.end());
+        header.insert(header.end(), m_auxiliary.begin() + sizeof(std::uint32_t), m_auxiliary.end());
+        m_stream->write(header.data(), 0, header.size());
     }
     else if (rc != id.size())
     {
-- 
2.43.0


From b54422171a1e0890174b4acfc6e212f2d073ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 12/42] fix: fsync in the full format did not write the file's
 pending metadata

---
 sources/full_format.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 68233c5..6c27a3d 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -414,6 +414,7 @@ int FuseHighLevelOps::vfsync(const char* path,
 {
     auto fp = get_file(info);
     FileLockGuard lg(*fp);
+    fp->flush();
     fp->fsync();
     return 0;
 };
-- 
2.43.0


From 4bc14d67e189f62c8eedf1fc0ab05b0f51993af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 13/42] fix: short transfers and EINTR on underlying files
 surfaced as errors or wrong data

---
 sources/unix.cpp | 69 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/sources/unix.cpp b/sources/unix.cpp
index ac0a5fc..41e534c 100644
--- a/sources/unix.cpp
+++ b/sources/unix.cpp
@@ -105,36 +105,69 @@ public:
 
     length_type read(void* output, offset_type offset, length_type length) override
     {
-        auto rc = ::pread(m_fd, output, length, offset);
-        if (rc < 0)
-            THROW_POSIX_EXCEPTION(errno, "pread");
-        return static_cast<length_type>(rc);
+        length_type done = 0;
+        while (done < length)
+        {
+            auto rc = ::pread(m_fd, static_cast<char*>(output) + done, length - done, offset + done);
+            if (rc < 0 && errno == EINTR)
+                continue;
+            if (rc < 0)
+                THROW_POSIX_EXCEPTION(errno, "pread");
+            if (rc == 0)
+                break;
+            done += static_cast<length_type>(rc);
+        }
+        return done;
     }
 
     length_type sequential_read(void* output, length_type length) override
     {
-        auto rc = ::read(m_fd, output, length);
-        if (rc < 0)
-            THROW_POSIX_EXCEPTION(errno, "read");
-        return static_cast<length_type>(rc);
+        length_type done = 0;
+        while (done < length)
+        {
+            auto rc = ::read(m_fd, static_cast<char*>(output) + done, length - done);
+            if (rc < 0 && errno == EINTR)
+                continue;
+            if (rc < 0)
+                THROW_POSIX_EXCEPTION(errno, "read");
+            if (rc == 0)
+                break;
+            done += static_cast<length_type>(rc);
+        }
+        return done;
     }
 
     void write(const void* input, offset_type offset, length_type length) override
     {
-        auto rc = ::pwrite(m_fd, input, length, offset);
-        if (rc < 0)
-            THROW_POSIX_EXCEPTION(errno, "pwrite");
-        if (static_cast<length_type>(rc) != length)
-            throwVFSException(EIO);
+        length_type done = 0;
+        while (done < length)
+        {
+            auto rc
+                = ::pwrite(m_fd, static_cast<const char*>(input) + done, length - done, offset + done);
+            if (rc < 0 && errno == EINTR)
+                continue;
+            if (rc < 0)
+                THROW_POSIX_EXCEPTION(errno, "pwrite");
+            if (rc == 0)
+                throwVFSException(EIO);
+            done += static_cast<length_type>(rc);
+        }
     }
 
     void sequential_write(const void* input, length_type length) override
     {
-        auto rc = ::write(m_fd, input, length);
-        if (rc < 0)
-            THROW_POSIX_EXCEPTION(errno, "write");
-        if (static_cast<length_type>(rc) != length)
-            throwVFSException(EIO);
+        length_type done = 0;
+        while (done < length)
+        {
+            auto rc = ::write(m_fd, static_cast<const char*>(input) + done, length - done);
+            if (rc < 0 && errno == EINTR)
+                continue;
+            if (rc < 0)
+                THROW_POSIX_EXCEPTION(errno, "write");
+            if (rc == 0)
+                throwVFSException(EIO);
+            done += static_cast<length_type>(rc);
+        }
     }
 
     void flush() override {}
-- 
2.43.0


From dd5a87b101220eca317ef578f63b32310dc3ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 14/42] fix: an interrupted header write left a lite file that
 cannot be used

---
 sources/lite_stream.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 507de42..9f21aaa 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -109,7 +109,22 @@ AESGCMCryptStream::AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
         // The header is written at once, because a stream with half a header can never be opened.
         std::vector<byte> header(id.begin(), id.end());
         header.insert(header.end(), m_auxiliary.begin() + sizeof(std::uint32_t), m_auxiliary.end());
-        m_stream->write(header.data(), 0, header.size());
+        try
+        {
+            m_stream->write(header.data(), 0, header.size());
+        }
+        catch (...)
+        {
+            try
+            {
+                m_stream->resize(0);
+            }
+            catch (const std::exception& e)
+            {
+                ERROR_LOG("Failed to remove a partial file header: %s", e.what());
+            }
+            throw;
+        }
     }
     else if (rc != id.size())
     {
-- 
2.43.0


From 929159cb4bb6c9e078ff260a722480fdc5ad90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 15/42] fix: listings of the lite format omitted long names
 when they could not be read

---
 sources/lite_format.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index f7747ba..d0fe3d5 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -687,6 +687,20 @@ namespace
                                         }},
                                name_trans_.decrypt_path_component(under_name));
                 }
+                catch (const SQLiteException& e)
+                {
+                    if (is_io_failure(e))
+                    {
+                        // The name is good. It merely cannot be looked up right now.
+                        ERROR_LOG("Failed to look up %s/%s: %s", dir_abs_path_, under_name, e.what());
+                        throwVFSException(EIO);
+                    }
+                    WARN_LOG("Skipping filename %s/%s due to exception in lookup: %s",
+                             dir_abs_path_,
+                             under_name,
+                             e.what());
+                    continue;
+                }
                 catch (const std::exception& e)
                 {
                     WARN_LOG("Skipping filename %s/%s due to exception in decoding: %s",
@@ -701,6 +715,25 @@ namespace
         void rewind() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) { under_traverser_->rewind(); }
 
     private:
+        bool is_io_failure(const SQLiteException& e)
+        {
+            switch (e.code() & 0xff)
+            {
+            case SQLITE_IOERR:
+            case SQLITE_NOMEM:
+            case SQLITE_BUSY:
+            case SQLITE_CORRUPT:    // SQLite reports some failures to read as such
+                return true;
+            case SQLITE_CANTOPEN:
+            {
+                fuse_stat st{};
+                return OSService::get_default().stat(
+                    OSService::concat_and_norm_narrowed(dir_abs_path_, kLongNameTableFileName), &st);
+            }
+            default:
+                return false;
+            }
+        }
         LongNameLookupTable& lazy_get_table() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
         {
             if (long_table_.has_value())
-- 
2.43.0


From 41058d52af06d69e186818a5eb6c6cdfff7a9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 16/42] fix: undecodable names in the lite format appeared as
 duplicates of other names

---
 sources/lite_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index d0fe3d5..2ec05c8 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -671,8 +671,9 @@ namespace
                     continue;
                 try
                 {
+                    bool valid = true;
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&) { valid = false; },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
@@ -686,6 +687,10 @@ namespace
                                             std::get<std::string>(decoded).swap(*name);
                                         }},
                                name_trans_.decrypt_path_component(under_name));
+                    if (!valid)
+                    {
+                        continue;
+                    }
                 }
                 catch (const SQLiteException& e)
                 {
-- 
2.43.0


From be9f41df8af5ab8112284c9d0e5606d841f04972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 17/42] fix: an I/O error while closing a file in the full
 format terminated the process

---
 sources/file_table_v2.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..e3daf8d 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -121,15 +121,19 @@ std::unique_ptr<FileBase> FileTable::construct(int type,
 }
 void FileTable::close(const id_type& id)
 {
-    if (id == kRootId)
-    {
-        LockGuard<FileBase> lg(*root_);
-        root_->flush();
-        return;
-    }
+    // This is called by destructors. When the flush fails, the file stays dirty and will be flushed
+    // again later.
     try
     {
-        close_internal(id);
+        if (id == kRootId)
+        {
+            LockGuard<FileBase> lg(*root_);
+            root_->flush();
+        }
+        else
+        {
+            close_internal(id);
+        }
     }
     catch (const std::exception& e)
     {
@@ -198,19 +202,29 @@ void FileTable::close_internal(const id_type id)
 FileTable::~FileTable()
 {
     VERBOSE_LOG("Flushing all opened and cached file descriptors, please wait...");
-    root_->flush();
+    auto flush_nothrow = [](FileBase& fb)
+    {
+        try
+        {
+            LockGuard<FileBase> lg(fb);
+            fb.flush();
+        }
+        catch (const std::exception& e)
+        {
+            ERROR_LOG("Failed to flush a file: %s", e.what());
+        }
+    };
+    flush_nothrow(*root_);
     for (auto&& s : shards)
     {
         LockGuard<Mutex> lg(s.mu);
         for (auto&& pair : s.live_map)
         {
-            LockGuard<FileBase> inner_lg(*pair.second);
-            pair.second->flush();
+            flush_nothrow(*pair.second);
         }
         for (auto&& p : s.cache)
         {
-            LockGuard<FileBase> inner_lg(*p);
-            p->flush();
+            flush_nothrow(*p);
         }
     }
 }
-- 
2.43.0


From 676ae0b9709fe5b926384d453b4ccc0ccf22feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 18/42] fix: I/O errors could leave directory updates of the
 full format half done

---
 sources/btree_dir.cpp   | 95 +++++++++++++++++++++++++++++++++--------
 sources/btree_dir.h     | 20 +++++++--
 sources/files.h         | 26 +++++++++++
 sources/full_format.cpp | 41 ++++++++++++++----
 sources/full_format.h   |  7 ++-
 5 files changed, 160 insertions(+), 29 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..ddb47b0 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -154,6 +154,8 @@ void BtreeDirectory::write_free_page(uint32_t num, const FreePage& fp)
 
 uint32_t BtreeDirectory::allocate_page()
 {
+    if (m_next_rebuilt_page)
+        return (*m_next_rebuilt_page)++;
     auto pg = get_start_free_page();
     if (pg == INVALID_PAGE)
     {
@@ -307,6 +309,44 @@ bool BtreeDirectory::validate_node(const BtreeNode* n, int depth)
     return true;
 }
 
+bool BtreeDirectory::begin_update() ABSL_NO_THREAD_SAFETY_ANALYSIS
+{
+    if (m_undo)
+        return false;
+    m_undo.emplace(UndoLog{get_root_page(), get_start_free_page(), get_num_free_page(), {}});
+    return true;
+}
+
+void BtreeDirectory::end_update(bool committed) noexcept ABSL_NO_THREAD_SAFETY_ANALYSIS
+{
+    auto undo = std::move(*m_undo);
+    m_undo.reset();
+    if (committed)
+        return;
+    set_root_page(undo.root_page);
+    set_start_free_page(undo.start_free_page);
+    set_num_free_page(undo.num_free_page);
+    for (auto&& pair : undo.nodes)
+    {
+        if (pair.second)
+        {
+            // The page on the disk may have been overwritten when it was deallocated.
+            pair.second->mark_dirty();
+            m_node_cache[pair.first] = std::move(pair.second);
+        }
+        else
+        {
+            m_node_cache.erase(pair.first);
+        }
+    }
+}
+
+void BtreeDirectory::save_for_undo(uint32_t num, const Node* n)
+{
+    if (m_undo && !m_undo->nodes.contains(num))
+        m_undo->nodes.emplace(num, n ? make_unique<Node>(*n) : nullptr);
+}
+
 void BtreeDirectory::clear_cache() { m_node_cache.clear(); }
 
 BtreeNode* BtreeDirectory::retrieve_existing_node(uint32_t num)
@@ -314,6 +354,7 @@ BtreeNode* BtreeDirectory::retrieve_existing_node(uint32_t num)
     auto iter = m_node_cache.find(num);
     if (iter == m_node_cache.end())
         return nullptr;
+    save_for_undo(num, iter->second.get());
     return iter->second.get();
 }
 
@@ -324,15 +365,27 @@ BtreeDirectory::Node* BtreeDirectory::retrieve_node(uint32_t parent_num, uint32_
     {
         auto n = iter->second.get();
         dir_check(parent_num == INVALID_PAGE || parent_num == n->parent_page_number());
+        save_for_undo(num, n);
         return n;
     }
     auto n = make_unique<Node>(parent_num, num);
     read_node(num, *n);
+    save_for_undo(num, nullptr);
     auto result = n.get();
     m_node_cache.emplace(num, std::move(n));
     return result;
 }
 
+BtreeDirectory::Node* BtreeDirectory::create_node(uint32_t parent_num)
+{
+    // There is no need to read the page, because it does not contain any node yet.
+    auto num = allocate_page();
+    save_for_undo(num, nullptr);
+    auto& n = m_node_cache[num];
+    n = make_unique<Node>(parent_num, num);
+    return n.get();
+}
+
 void BtreeDirectory::subflush()
 {
     if (get_num_free_page() > 5
@@ -416,25 +469,29 @@ bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, in
     if (name.size() > MAX_FILENAME_LENGTH)
         throwVFSException(ENAMETOOLONG);
 
+    Transaction transaction(*this);
     BtreeNode* node;
     bool is_equal;
     std::tie(node, std::ignore, is_equal) = find_node(name);
 
     if (is_equal)
     {
+        transaction.commit();
         return false;
     }
 
     if (!node)
     {
-        set_root_page(allocate_page());
-        node = get_root_node();
+        node = create_node(INVALID_PAGE);
+        set_root_page(node->page_number());
         node->mutable_entries().emplace_back(
             Entry{std::string(name), id, static_cast<uint32_t>(type)});
+        transaction.commit();
         return true;
     }
     insert_and_balance(
         node, Entry{std::string(name), id, static_cast<uint32_t>(type)}, INVALID_PAGE, 0);
+    transaction.commit();
     return true;
 }
 
@@ -460,7 +517,7 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
 
     if (n->entries().size() > BTREE_MAX_NUM_ENTRIES)
     {
-        Node* sibling = retrieve_node(n->parent_page_number(), allocate_page());
+        Node* sibling = create_node(n->parent_page_number());
         auto middle_index = n->entries().size() / 2 - 1;
         e = std::move(n->mutable_entries()[middle_index]);
         if (!n->is_leaf())
@@ -472,8 +529,8 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
         n->mutable_entries().pop_back();
         if (n->parent_page_number() == INVALID_PAGE)
         {
-            auto new_root_page = allocate_page();
-            Node* root = retrieve_node(INVALID_PAGE, new_root_page);
+            Node* root = create_node(INVALID_PAGE);
+            auto new_root_page = root->page_number();
             root->mutable_children().push_back(n->page_number());
             root->mutable_children().push_back(sibling->page_number());
             root->mutable_entries().push_back(std::move(e));
@@ -629,19 +686,24 @@ bool BtreeDirectory::remove_entry_impl(std::string_view name, id_type& id, int&
     if (name.size() > MAX_FILENAME_LENGTH)
         throwVFSException(ENAMETOOLONG);
 
+    Transaction transaction(*this);
     BtreeNode* node;
     ptrdiff_t entry_index;
     bool is_equal;
     std::tie(node, entry_index, is_equal) = find_node(name);
 
     if (!is_equal || !node)
+    {
+        transaction.commit();
         return false;
+    }
     const Entry& e = node->entries().at(entry_index);
 
     id = e.id;
     type = e.type;
     auto leaf_node = replace_with_sub_entry(node, entry_index, 0);
     balance_up(leaf_node, 0);
+    transaction.commit();
     return true;
 }
 
@@ -728,16 +790,6 @@ void BtreeDirectory::recursive_iterate(const BtreeNode* n, const Callback& cb, i
         recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
 }
 
-template <class Callback>
-void BtreeDirectory::mutable_recursive_iterate(BtreeNode* n, const Callback& cb, int depth)
-{
-    dir_check(depth < BTREE_MAX_DEPTH);
-    for (Entry& e : n->mutable_entries())
-        cb(std::move(e));
-    for (uint32_t c : n->children())
-        mutable_recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
-}
-
 void BtreeDirectory::iterate_over_entries_impl(const BtreeDirectory::callback& cb)
 {
     auto root = get_root_node();
@@ -753,14 +805,23 @@ void BtreeDirectory::rebuild()
 
     std::vector<DirEntry> entries;
     entries.reserve(this->m_stream->size() / BLOCK_SIZE * BTREE_MAX_NUM_ENTRIES);
-    mutable_recursive_iterate(root, [&](DirEntry&& e) { entries.push_back(std::move(e)); }, 0);
+    recursive_iterate(
+        root,
+        [&](const std::string& name, const id_type& id, uint32_t type)
+        { entries.push_back(DirEntry{name, id, type}); },
+        0);
     clear_cache();    // root is invalid after this line
-    m_stream->resize(0);
     set_num_free_page(0);
     set_start_free_page(INVALID_PAGE);
     set_root_page(INVALID_PAGE);
+    // The new nodes are constructed without any I/O, because the old ones are already gone.
+    m_next_rebuilt_page = 0;
     for (DirEntry& e : entries)
         add_entry(e.filename, e.id, e.type);
+    auto new_size = static_cast<length_type>(*m_next_rebuilt_page) * BLOCK_SIZE;
+    m_next_rebuilt_page.reset();
+    if (new_size < m_stream->size())
+        m_stream->resize(new_size);
 }
 
 bool BtreeDirectory::empty()
diff --git a/sources/btree_dir.h b/sources/btree_dir.h
index 5068b2e..6f4145b 100644
--- a/sources/btree_dir.h
+++ b/sources/btree_dir.h
@@ -4,6 +4,7 @@
 #include "myutils.h"
 
 #include <memory>
+#include <optional>
 #include <stdio.h>
 #include <string>
 #include <tuple>
@@ -61,6 +62,8 @@ public:
         other.m_num = INVALID_PAGE;
     }
 
+    BtreeNode(const BtreeNode&) = default;
+
     BtreeNode& operator=(BtreeNode&& other) noexcept
     {
         if (this == &other)
@@ -90,6 +93,7 @@ public:
     }
 
     bool is_dirty() const { return m_dirty; }
+    void mark_dirty() { m_dirty = true; }
     void clear_dirty() { m_dirty = false; }
 
     const std::vector<DirEntry>& entries() const noexcept { return m_entries; }
@@ -118,6 +122,15 @@ private:
 private:
     absl::flat_hash_map<uint32_t, std::unique_ptr<Node>> m_node_cache;
 
+    // What to restore when an update fails. A null node was not in the cache before.
+    struct UndoLog
+    {
+        uint32_t root_page, start_free_page, num_free_page;
+        absl::flat_hash_map<uint32_t, std::unique_ptr<Node>> nodes;
+    };
+    std::optional<UndoLog> m_undo;
+    std::optional<uint32_t> m_next_rebuilt_page;    // Only has value in the middle of a rebuild
+
 private:
     bool read_node(uint32_t, Node&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void read_free_page(uint32_t, FreePage&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -127,10 +140,12 @@ private:
     uint32_t allocate_page() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
     Node* retrieve_node(uint32_t parent_num, uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    Node* create_node(uint32_t parent_num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     Node* retrieve_existing_node(uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void del_node(Node*) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     Node* get_root_node() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void flush_cache() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void save_for_undo(uint32_t num, const Node* n) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void clear_cache() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void adjust_children_in_cache(BtreeNode* n, uint32_t parent)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -160,12 +175,11 @@ private:
     template <class Callback>
     void recursive_iterate(const Node* n, const Callback& cb, int depth)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-    template <class Callback>
-    void mutable_recursive_iterate(Node* n, const Callback& cb, int depth)
-        ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
 protected:
     void subflush() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    bool begin_update() override;
+    void end_update(bool committed) noexcept override;
 
 public:
     using Directory::Directory;
diff --git a/sources/files.h b/sources/files.h
index ce44fe5..fd4c601 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -488,7 +488,33 @@ public:
 
     virtual bool empty() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) = 0;
 
+    /**
+     * Undoes, without any I/O, all the additions and removals since its construction, unless it is
+     * committed. When nested, only the outermost one is effective.
+     */
+    class Transaction
+    {
+    public:
+        explicit Transaction(Directory& dir) : m_dir(dir), m_active(dir.begin_update()) {}
+        Transaction(const Transaction&) = delete;
+        Transaction& operator=(const Transaction&) = delete;
+        ~Transaction()
+        {
+            if (m_active)
+                m_dir.end_update(m_committed);
+        }
+        void commit() noexcept { m_committed = true; }
+
+    private:
+        Directory& m_dir;
+        bool m_active, m_committed = false;
+    };
+
 protected:
+    // Returns false when the directory is already in the middle of an update.
+    virtual bool begin_update() { return false; }
+    virtual void end_update(bool committed) noexcept {}
+
     virtual std::optional<std::string_view>
     get_entry_impl(std::string_view name, id_type& id, int& type) = 0;
 
diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 6c27a3d..b19d51b 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -204,18 +204,22 @@ int FuseHighLevelOps::vunlink(const char* path, const fuse_context* ctx)
     auto [dirholder, last_component] = open_base(path);
     id_type id;
     int type;
+    std::optional<FilePtrHolder> fp;
 
     {
         FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+        auto dir = dirholder->cast_as<Directory>();
+        if (!dir->get_entry(last_component, id, type))
         {
             return -ENOENT;
         }
+        // Open the file first, so that the entry stays when it fails.
+        fp = ft_->open_as(id, type);
+        dir->remove_entry(last_component, id, type);
     }
 
-    auto fp = ft_->open_as(id, type);
-    FileLockGuard lg(*fp);
-    fp->unlink();
+    FileLockGuard lg(**fp);
+    (**fp).unlink();
     return 0;
 };
 int FuseHighLevelOps::vmkdir(const char* path, fuse_mode_t mode, const fuse_context* ctx)
@@ -285,9 +289,7 @@ int FuseHighLevelOps::vsymlink(const char* to, const char* from, const fuse_cont
         ERROR_LOG("Symlink target %s is absolute and therefore not supported", to);
         return -EINVAL;
     }
-    auto holder = create(from, 0644, Symlink::class_type(), ctx->uid, ctx->gid);
-    FileLockGuard fg(*holder);
-    holder->cast_as<Symlink>()->set(to);
+    create(from, 0644, Symlink::class_type(), ctx->uid, ctx->gid, to);
     return 0;
 };
 int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_context* ctx)
@@ -395,10 +397,17 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
                     return -ENOTEMPTY;
                 }
             }
+        }
+        Directory::Transaction transaction_from(*dir_from);
+        Directory::Transaction transaction_to(*dir_to);
+        if (to_holder)
+        {
             dir_to->remove_entry(last_to, to_id, to_type);
         }
         dir_from->remove_entry(last_from, from_id, from_type);
         dir_to->add_entry(last_to, from_id, from_type);
+        transaction_from.commit();
+        transaction_to.commit();
     }
     if (to_holder)
     {
@@ -636,19 +645,35 @@ FuseHighLevelOps::OpenBaseResult FuseHighLevelOps::open_base(absl::string_view p
     return {std::move(*generic_open_result), splits.back()};
 }
 FilePtrHolder
-FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int uid, int gid)
+FuseHighLevelOps::create(absl::string_view path,
+                         unsigned mode,
+                         int type,
+                         int uid,
+                         int gid,
+                         absl::string_view symlink_target)
 {
     auto [base_dir, last_component] = open_base(path);
     auto holder = ft_->create_as(type);
     {
         FileLockGuard lg(*holder);
         holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
+        if (type == Symlink::class_type())
+        {
+            holder->cast_as<Symlink>()->set(symlink_target);
+        }
     }
     bool success = false;
+    try
     {
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
+    catch (...)
+    {
+        FileLockGuard lg(*holder);
+        holder->unlink();
+        throw;
+    }
     if (!success)
     {
         FileLockGuard lg(*holder);
diff --git a/sources/full_format.h b/sources/full_format.h
index 4a67361..604df25 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -168,7 +168,12 @@ private:
                                               int recursion_depth = 0);
 
     OpenBaseResult open_base(absl::string_view path);
-    FilePtrHolder create(absl::string_view path, unsigned mode, int type, int uid, int gid);
+    FilePtrHolder create(absl::string_view path,
+                         unsigned mode,
+                         int type,
+                         int uid,
+                         int gid,
+                         absl::string_view symlink_target = {});
     std::optional<FilePtrHolder> open_all(absl::string_view path,
                                           bool resolve_last_symlink = false);
 
-- 
2.43.0


From 4d43abe2357d3b52d406060e18756f558c7387ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 19/42] fix: short symlink targets and attribute values were
 not treated as unauthentic

A symlink target shorter than a SIV made the legacy name translator compute a
huge length (memory corruption), and the new one return an empty target. A
truncated attribute value was reported as an empty value without any check.
---
 sources/files.cpp       |  3 ++-
 sources/lite_format.cpp | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sources/files.cpp b/sources/files.cpp
index 8ecce4c..e55e346 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -301,7 +301,8 @@ ssize_t FileBase::getxattr(const char* name, char* value, size_t size)
         = generic_xattr::encrypt_xattr_name(m_xattr_name_cryptor.value(), name);
 
     auto true_size = m_data_stream->getxattr(wrapped_name.c_str(), value, size);
-    if (!value)
+    // An empty value will not be asked for again, so it is verified even without a buffer.
+    if (!value && true_size != 0)
         return true_size;
 
     byte meta[XATTR_IV_LENGTH + XATTR_MAC_LENGTH];
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 2ec05c8..ced7e51 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -302,6 +302,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() <= kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
@@ -491,7 +493,7 @@ namespace
             base32_decode(tmp.data(), tmp.size(), decoded);
             if (decoded.size() <= kSIVSize)
             {
-                return {};
+                throw InvalidFilenameException(std::string(path));
             }
             tmp.resize(decoded.size() - kSIVSize);
             if (!get_siv().decrypt_and_verify(decoded.data() + kSIVSize,
@@ -1158,7 +1160,16 @@ int FuseHighLevelOps::vgetxattr(const char* path,
         {
             return rc;
         }
-        return static_cast<int>(xattr_->infer_decrypted_size(rc));
+        if (static_cast<size_t>(rc) < xattr_->infer_encrypted_size(0))
+        {
+            throw XattrVerificationException();
+        }
+        if (auto value_size = xattr_->infer_decrypted_size(rc); value_size > 0)
+        {
+            return static_cast<int>(value_size);
+        }
+        // The caller will not ask for an empty value again, so verify it now.
+        size = 0;
     }
     std::vector<byte> underlying_data(xattr_->infer_encrypted_size(size));
     auto rc = root_->getxattr(name_trans_->encrypt_full_path(path, nullptr).c_str(),
-- 
2.43.0


From 605fb601b72f3fb8940c6f2a42c20deb94161d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 20/42] fix: full format: a half failed truncation left stale
 checksums behind

A later extension of the file then failed, because the hole did not match them.
---
 sources/streams.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index 91c1263..3d4b564 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -470,9 +470,19 @@ namespace internal
 
         void adjust_logical_size(length_type length) override
         {
+            auto meta_length = [this](length_type data_length) {
+                return meta_position_for_iv((data_length + this->m_block_size - 1)
+                                            / this->m_block_size);
+            };
+            if (auto current_length = m_stream->size();
+                length > current_length && m_metastream.size() > meta_length(current_length))
+            {
+                // A previous truncation has failed before the checksums of the removed blocks were
+                // removed as well. They must not be taken for those of the new blocks.
+                m_metastream.resize(meta_length(current_length));
+            }
             m_stream->resize(length);
-            auto block_num = (length + this->m_block_size - 1) / this->m_block_size;
-            m_metastream.resize(meta_position_for_iv(block_num));
+            m_metastream.resize(meta_length(length));
         }
 
     public:
-- 
2.43.0


From 15db39756582f62952cb14beef664e7bc58cfa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 21/42] fix: a configuration with a shortened or empty MAC was
 accepted without authentication

---
 sources/params_io.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..a8136a4 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -201,6 +201,11 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto mac = parse_hex(legacy.encrypted_key().mac());
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
             auto header = get_version_header(legacy.version());
+            if (mac.size() != kParamMacSize)
+            {
+                // A shorter tag authenticates less, and an empty one nothing.
+                return false;
+            }
 
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
             dec.SetKeyWithIV(wrapping_key.data(), wrapping_key.size(), iv.data(), iv.size());
@@ -280,6 +285,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        // A shorter tag authenticates less, and an empty one nothing.
+        throw PasswordOrKeyfileIncorrectException();
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From 573a84c3e66259a4b8d46e0fd49c351015bc326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 22/42] fix: an interrupted creation left a config file that
 blocks another one, and a legacy one was shadowed

---
 sources/commands.cpp | 45 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2bf7b62..e4cc78a 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -133,6 +133,24 @@ static void secure_wipe(char* buffer, size_t size)
     CryptoPP::SecureWipeBuffer(reinterpret_cast<byte*>(buffer), size);
 }
 
+// The config file at `path` either keeps its former content, or receives `content` as a whole, no
+// matter when this is interrupted.
+static void write_config_file(const std::string& path, const std::string& content)
+{
+    byte buffer[16];
+    generate_random(buffer, array_length(buffer));
+    auto tmp_path = path + hexify(buffer, array_length(buffer));
+    auto stream
+        = OSService::get_default().open_file_stream(tmp_path, O_WRONLY | O_CREAT | O_EXCL, 0644);
+    DEFER(if (has_uncaught_exceptions()) {
+        OSService::get_default().remove_file_nothrow(tmp_path);
+    });
+    stream->write(content.data(), 0, content.size());
+    stream->fsync();
+    stream.reset();
+    OSService::get_default().rename(tmp_path, path);
+}
+
 void CommandBase::parse_cmdline(int argc, const char* const* argv) { cmdline().parse(argc, argv); }
 
 struct SinglePasswordHolder : public DataDirHolder
@@ -295,6 +313,16 @@ private:
         generate_random(str->data(), str->size());
     }
 
+    static void ensure_absent(const std::string& path)
+    {
+        fuse_stat st{};
+        if (OSService::get_default().stat(path, &st))
+        {
+            throw POSIXException(EEXIST,
+                                 absl::StrCat("The repository already has a config file at ", path));
+        }
+    }
+
 public:
     void parse_cmdline(int argc, const char* const* argv) override
     {
@@ -376,13 +404,16 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
-        auto config_stream = OSService::get_default().open_file_stream(
-            single_pass_holder_.config_path.getValue().empty()
-                ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
-                : single_pass_holder_.config_path.getValue(),
-            O_WRONLY | O_EXCL | O_CREAT,
-            0644);
-        config_stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        if (single_pass_holder_.config_path.getValue().empty())
+        {
+            ensure_absent(
+                absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kLegacyConfigFileName));
+        }
+        auto config_path = single_pass_holder_.config_path.getValue().empty()
+            ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
+            : single_pass_holder_.config_path.getValue();
+        ensure_absent(config_path);
+        write_config_file(config_path, encrypted_data);
         return 0;
     }
 
-- 
2.43.0


From 49f6d6d32ea2ce14cf922897e81cb03d4086ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 23/42] fix: a power loss after changing the password could
 leave an empty config file

---
 sources/commands.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index e4cc78a..d82dc3b 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -507,10 +507,6 @@ public:
     int execute() override
     {
         auto original_path = data_dir_holder_.get_real_config_path_for_reading();
-        byte buffer[16];
-        generate_random(buffer, array_length(buffer));
-        auto tmp_path = original_path + hexify(buffer, array_length(buffer));
-        auto stream = OSService::get_default().open_file_stream(original_path, O_RDONLY, 0644);
         auto params = decrypt(
             OSService::get_default().open_file_stream(original_path, O_RDONLY, 0644)->as_string(),
             {old_password.data(), old_password.size()},
@@ -520,14 +516,7 @@ public:
                                       {new_password.data(), new_password.size()},
                                       maybe_open_key_stream(new_key_file).get())
                                   .SerializeAsString();
-        stream = OSService::get_default().open_file_stream(
-            tmp_path, O_WRONLY | O_CREAT | O_EXCL, 0644);
-        DEFER(if (has_uncaught_exceptions()) {
-            OSService::get_default().remove_file_nothrow(tmp_path);
-        });
-        stream->write(encrypted_data.data(), 0, encrypted_data.size());
-        stream.reset();
-        OSService::get_default().rename(tmp_path, original_path);
+        write_config_file(original_path, encrypted_data);
         return 0;
     }
 
-- 
2.43.0


From 9f7a13dcb3163d80000e136967ac2ee6e4524328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 24/42] fix: migrating long names failed on nested directories
 and could not be completed once interrupted

---
 sources/commands.cpp    | 10 +---------
 sources/lite_format.cpp | 42 +++++++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index d82dc3b..55624db 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -1201,15 +1201,7 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
-        auto tmp_path = absl::StrCat(real_config_path, ".tmp");
-        auto stream = OSService::get_default().open_file_stream(
-            tmp_path, O_WRONLY | O_CREAT | O_EXCL, 0644);
-        DEFER(if (has_uncaught_exceptions()) {
-            OSService::get_default().remove_file_nothrow(tmp_path);
-        });
-        stream->write(encrypted_data.data(), 0, encrypted_data.size());
-        stream.reset();
-        OSService::get_default().rename(tmp_path, real_config_path);
+        write_config_file(real_config_path, encrypted_data);
         return 0;
     }
 };
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index ced7e51..4d218bc 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -13,6 +13,7 @@
 
 #include <absl/base/thread_annotations.h>
 #include <absl/container/inlined_vector.h>
+#include <absl/strings/ascii.h>
 #include <absl/strings/match.h>
 #include <absl/strings/str_cat.h>
 #include <absl/strings/str_format.h>
@@ -1391,28 +1392,53 @@ void change_long_name_suffix(const std::string& data_dir,
                                 }
                             });
 
+    // A directory comes after everything below it, because its own name may change as well.
+    std::sort(dirs_with_long_name_table.begin(),
+              dirs_with_long_name_table.end(),
+              [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
+
     for (const auto& dir : dirs_with_long_name_table)
     {
-        auto full_dir_name = root.norm_path_narrowed(dir);
         auto full_table_file_name
             = root.norm_path_narrowed(absl::StrCat(dir, "/", kLongNameTableFileName));
 
         LongNameLookupTable table(full_table_file_name, false);
         LockGuard<LongNameLookupTable> lg(table);
-        auto hashes = table.list_hashes();
-        for (const auto& hash : hashes)
+        std::vector<std::pair<std::string, std::string>> renames;
+        for (auto& hash : table.list_hashes())
         {
             if (!absl::EndsWith(hash, old_suffix))
             {
                 continue;
             }
-            auto new_hash = absl::StrCat(hash.substr(0, hash.size() - old_suffix.size()),
-                                         new_long_name_suffix);
-            auto old_value = table.lookup(hash);
-            table.update_mapping(new_hash, old_value);
+            auto stem = std::string_view(hash).substr(0, hash.size() - old_suffix.size());
+            if (!std::all_of(
+                    stem.begin(), stem.end(), [](char c) { return absl::ascii_isalnum(c); }))
+            {
+                // The new suffix may end with the old one.
+                continue;
+            }
+            auto new_hash = absl::StrCat(stem, new_long_name_suffix);
+            table.update_mapping(new_hash, table.lookup(hash));
+            renames.emplace_back(std::move(hash), std::move(new_hash));
+        }
+        // Both names are in the table while the files are renamed, so that the migration can be
+        // completed by another run if this one is interrupted.
+        table.commit_and_begin();
+        for (const auto& [hash, new_hash] : renames)
+        {
+            auto old_path = absl::StrCat(dir, "/", hash);
+            fuse_stat st{};
+            if (root.stat(old_path, &st))
+            {
+                root.rename(old_path, absl::StrCat(dir, "/", new_hash));
+            }
+        }
+        for (const auto& [hash, new_hash] : renames)
+        {
             table.remove_mapping(hash);
-            root.rename(absl::StrCat(dir, "/", hash), absl::StrCat(dir, "/", new_hash));
         }
+        table.commit_and_begin();
     }
 
     mutable_params.mutable_lite_format_params()->set_long_name_suffix(new_long_name_suffix);
-- 
2.43.0


From f4218dc1a8b2df06c8bd17d6d822e24525d2a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 25/42] fix: full format: a header that is not authentic was
 accepted

---
 sources/streams.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index 3d4b564..e6a2d8e 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -512,15 +512,19 @@ namespace internal
             byte* iv = buffer.get();
             byte* mac = iv + get_iv_size();
             byte* ciphertext = mac + get_mac_size();
-            m_dec.DecryptAndVerify(static_cast<byte*>(output),
-                                   mac,
-                                   get_mac_size(),
-                                   iv,
-                                   get_iv_size(),
-                                   id().data(),
-                                   id().size(),
-                                   ciphertext,
-                                   get_header_size());
+            bool success = m_dec.DecryptAndVerify(static_cast<byte*>(output),
+                                                  mac,
+                                                  get_mac_size(),
+                                                  iv,
+                                                  get_iv_size(),
+                                                  id().data(),
+                                                  id().size(),
+                                                  ciphertext,
+                                                  get_header_size());
+            if (!success && m_check)
+            {
+                throw CorruptedMetaDataException(id(), "Header is not authentic");
+            }
             return get_header_size();
         }
 
-- 
2.43.0


From d392f71fcf44beaecf3024b031482eadd8ffb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 26/42] fix: full format: closing an object used it after
 another thread could free it

---
 sources/file_table_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e3daf8d..443df31 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -349,9 +349,15 @@ namespace
 
 void FileTableCloser::operator()(FileBase* fb) const
 {
-    if (fb && table_ && fb->decref() <= 0)
+    if (!fb || !table_)
     {
-        table_->close(fb->get_id());
+        return;
+    }
+    // Once the reference is given up, another thread may close and free the object.
+    const id_type id = fb->get_id();
+    if (fb->decref() <= 0)
+    {
+        table_->close(id);
     }
 }
 std::shared_ptr<FileTableIO> make_table_io(std::shared_ptr<OSService> os_service,
-- 
2.43.0


From d48f7e38c24565911737714f92ea330f16398a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:04 +0000
Subject: [PATCH 27/42] fix: listing extended attributes failed with ERANGE
 while another thread added one

---
 sources/xattr_name.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sources/xattr_name.cpp b/sources/xattr_name.cpp
index 435b07a..c5fc43b 100644
--- a/sources/xattr_name.cpp
+++ b/sources/xattr_name.cpp
@@ -5,6 +5,8 @@
 #include <absl/strings/str_cat.h>
 #include <absl/strings/str_split.h>
 
+#include <cerrno>
+
 namespace securefs::generic_xattr
 {
 std::string encrypt_xattr_name(AES_SIV& aes_siv, std::string_view name)
@@ -47,13 +49,19 @@ int wrapped_listxattr(absl::FunctionRef<int(char*, size_t)> underlying_listxattr
                       char* buffer,
                       size_t size)
 {
-    int rc = underlying_listxattr(nullptr, 0);
-    if (rc <= 0)
+    int rc;
+    std::vector<char> encrypted_name_buffer;
+    do
     {
-        return rc;
-    }
-    std::vector<char> encrypted_name_buffer(static_cast<size_t>(rc), 0);
-    rc = underlying_listxattr(encrypted_name_buffer.data(), encrypted_name_buffer.size());
+        rc = underlying_listxattr(nullptr, 0);
+        if (rc <= 0)
+        {
+            return rc;
+        }
+        encrypted_name_buffer.assign(static_cast<size_t>(rc), 0);
+        rc = underlying_listxattr(encrypted_name_buffer.data(), encrypted_name_buffer.size());
+        // Another thread may have added an attribute in between.
+    } while (rc == -ERANGE);
     if (rc <= 0)
     {
         return rc;
-- 
2.43.0


From c7ffa81a3a58032a8ee725b716d0a6a7f8fd61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 28/42] fix: full format: files unlinked while open were never
 removed when the mount ended

---
 sources/file_table_v2.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 443df31..87a14e9 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -214,13 +214,27 @@ FileTable::~FileTable()
             ERROR_LOG("Failed to flush a file: %s", e.what());
         }
     };
+    auto is_unlinked = [](FileBase& fb)
+    {
+        LockGuard<FileBase> lg(fb);
+        return fb.is_unlinked();
+    };
     flush_nothrow(*root_);
     for (auto&& s : shards)
     {
         LockGuard<Mutex> lg(s.mu);
         for (auto&& pair : s.live_map)
         {
-            flush_nothrow(*pair.second);
+            if (is_unlinked(*pair.second))
+            {
+                // It was still open when the mount ended, and cannot be found any more.
+                pair.second.reset();
+                io_->unlink(pair.first);
+            }
+            else
+            {
+                flush_nothrow(*pair.second);
+            }
         }
         for (auto&& p : s.cache)
         {
-- 
2.43.0


From 5edb00f4869cf3119cdd602099e7225bb4129c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 29/42] fix: the full format was mounted without use_ino where
 inode numbers of the underlying file system are not known to be stable

---
 sources/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 55624db..fa53993 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -669,7 +669,6 @@ private:
         0,
         "int64",
         cmdline()};
-    DecryptedSecurefsParams fsparams{};
 
 private:
     std::string executable_name_;
@@ -687,7 +686,7 @@ private:
     }
 #endif
 
-    bool should_use_ino()
+    bool should_use_ino(const DecryptedSecurefsParams& fsparams)
     {
         if (use_ino.getValue() == "true")
         {
@@ -864,7 +863,7 @@ private:
         // Handling `daemon` ourselves, as FUSE's version interferes with our initialization.
         fuse_args.emplace_back("-f");
 
-        if (should_use_ino())
+        if (should_use_ino(internal_mount_data.decrypted_params()))
         {
             fuse_args.emplace_back("-o");
             fuse_args.emplace_back("use_ino");
-- 
2.43.0


From d4ac25d4b59a55129d79d85d14eb41d828a2ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 30/42] fix: stopping the mount while a worker thread was
 starting terminated the process without flushing

---
 sources/fuse2_workaround.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/fuse2_workaround.cpp b/sources/fuse2_workaround.cpp
index 11d7507..e35f304 100644
--- a/sources/fuse2_workaround.cpp
+++ b/sources/fuse2_workaround.cpp
@@ -64,6 +64,9 @@ namespace
 
     void worker_loop(fuse_session* session, fuse_chan* channel, std::atomic<int>* error_code)
     {
+        // Only waiting for requests may be cancelled. A thread cancelled elsewhere, e.g. while it runs
+        // the deferred function below, would bring the process down.
+        pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, nullptr);
         block_some_signals();
         std::vector<char> buffer(fuse_chan_bufsize(channel));
 
-- 
2.43.0


From ca81e96e016ca1be1f8f840eecdba334dca23671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 31/42] fix: a signal during mounting did not end the mount
 until the next request

---
 sources/fuse2_workaround.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/fuse2_workaround.cpp b/sources/fuse2_workaround.cpp
index e35f304..53e9aaf 100644
--- a/sources/fuse2_workaround.cpp
+++ b/sources/fuse2_workaround.cpp
@@ -151,6 +151,12 @@ int my_fuse_main(int argc, char** argv, fuse_operations* op, void* user_data)
         THROW_POSIX_EXCEPTION(errno, "fcntl");
     }
 
+    // Before fuse_setup, which installs handlers of its own where there are none. These do not wake the
+    // workers, so a signal that meets them does not end the mount before the next request.
+    install_signal_handler(SIGINT);
+    install_signal_handler(SIGTERM);
+    install_signal_handler(SIGHUP);
+
     auto fuse = fuse_setup(argc, argv, op, sizeof(*op), &mountpoint, &multithreaded, user_data);
     if (fuse == nullptr)
         return 1;
@@ -176,10 +182,6 @@ int my_fuse_main(int argc, char** argv, fuse_operations* op, void* user_data)
         w = std::thread(worker_loop, session, channel, &error_code);
     }
 
-    install_signal_handler(SIGINT);
-    install_signal_handler(SIGTERM);
-    install_signal_handler(SIGHUP);
-
     std::thread waiter(
         [&]()
         {
-- 
2.43.0


From a2ccc79cb8756afbe7e07fe718ddcc7b7b6f5684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:11 +0000
Subject: [PATCH 32/42] fix: full format: the repository was read and written
 without holding its lock

---
 sources/full_format.h      | 4 ++--
 sources/internal_mount.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/full_format.h b/sources/full_format.h
index 604df25..7f91ed2 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -60,8 +60,8 @@ public:
                      StrongType<bool, tCaseInsensitive> case_insensitive,
                      StrongType<bool, tEnableXattr> enable_xattr)
         : root_(std::move(root))
-        , ft_(std::move(ft))
         , locker_(std::move(locker))
+        , ft_(std::move(ft))
         , owner_override_(owner_override)
         , case_insensitive_(case_insensitive.get())
         , enable_xattr_(enable_xattr.get())
@@ -148,9 +148,9 @@ public:
 
 private:
     std::shared_ptr<OSService> root_;
-    std::shared_ptr<FileTable> ft_;
     [[maybe_unused]] std::shared_ptr<RepoLocker>
         locker_;    // We only needs this to construct and destruct.
+    std::shared_ptr<FileTable> ft_;    // After the lock, because it flushes when destructed.
     OwnerOverride owner_override_;
     bool case_insensitive_;
     bool enable_xattr_;
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index c63c320..8ac7270 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -183,9 +183,10 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                      const DecryptedSecurefsParams& params,
                                      const MountOptions& mount_options)
 {
-    auto file_table = make_file_table(os_service, params, mount_options);
+    // Nothing of the repository may be read or written without the lock.
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
+    auto file_table = make_file_table(os_service, params, mount_options);
     OwnerOverride owner_override{};
     if (mount_options.has_uid_override())
     {
-- 
2.43.0


From 06a1ad581b0b39a40fa107ba9fcac3359c96d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 33/42] fix: restore the terminal when a password is refused

---
 sources/unix.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/unix.cpp b/sources/unix.cpp
index 41e534c..001c8ae 100644
--- a/sources/unix.cpp
+++ b/sources/unix.cpp
@@ -662,7 +662,8 @@ void OSService::read_password_no_confirmation(const char* prompt,
     size_t bufsize = 0;
 
     struct termios old_tios, new_tios;
-    if (::isatty(STDIN_FILENO))
+    const bool is_terminal = ::isatty(STDIN_FILENO);
+    if (is_terminal)
     {
         if (::isatty(STDERR_FILENO))
         {
@@ -675,6 +676,11 @@ void OSService::read_password_no_confirmation(const char* prompt,
         new_tios.c_lflag &= ~(unsigned)ECHO;
         tcsetattr(STDIN_FILENO, TCSAFLUSH, &new_tios);
     }
+    // The terminal must echo again even when the password is refused.
+    DEFER(if (is_terminal) {
+        tcsetattr(STDIN_FILENO, TCSAFLUSH, &old_tios);
+        putc('\n', stderr);
+    });
     while (1)
     {
         int c = getchar();
@@ -690,11 +696,6 @@ void OSService::read_password_no_confirmation(const char* prompt,
             throw_runtime_error("Password exceeds 4000 characters");
         }
     }
-    if (::isatty(STDIN_FILENO))
-    {
-        tcsetattr(STDIN_FILENO, TCSAFLUSH, &old_tios);
-        putc('\n', stderr);
-    }
     output->resize(bufsize);
     memcpy(output->data(), buffer, bufsize);
 }
-- 
2.43.0


From 664c7a636148f5d3bc025073986b25bb158f5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 34/42] fix: do not take a part of a password for the whole
 when reading it fails

---
 sources/unix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/unix.cpp b/sources/unix.cpp
index 001c8ae..649c69b 100644
--- a/sources/unix.cpp
+++ b/sources/unix.cpp
@@ -684,6 +684,9 @@ void OSService::read_password_no_confirmation(const char* prompt,
     while (1)
     {
         int c = getchar();
+        // What was read so far is not the whole password.
+        if (c == EOF && ferror(stdin))
+            THROW_POSIX_EXCEPTION(errno, "Failed to read the password");
         if (c == '\r' || c == '\n' || c == EOF)
             break;
         if (bufsize < array_length(buffer))
-- 
2.43.0


From 67f76f063b56beac3856b5e005261344bf041d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:18 +0000
Subject: [PATCH 35/42] fix: refuse to extend a lite file beyond its maximum
 size

A write or truncation beyond the last block that a stream can number
first extended the file, and only then failed, or left a file whose end
could not be read.  Check the new size before changing anything, and do
not fail a read that merely asks for more than a file can hold.
---
 sources/lite_stream.cpp | 25 +++++++++++++++++++++++--
 sources/lite_stream.h   |  7 +++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 9f21aaa..c27999b 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -156,6 +156,25 @@ AESGCMCryptStream::AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
 
 AESGCMCryptStream::~AESGCMCryptStream() {}
 
+void AESGCMCryptStream::check_size(length_type new_size) const
+{
+    if (new_size > MAX_BLOCKS * m_block_size)
+        throw StreamTooLongException(MAX_BLOCKS * m_block_size, new_size);
+}
+
+void AESGCMCryptStream::write(const void* input, offset_type offset, length_type length)
+{
+    // Check before the file is extended up to the offset.
+    check_size(offset + length);
+    BlockBasedStream::write(input, offset, length);
+}
+
+void AESGCMCryptStream::resize(length_type new_size)
+{
+    check_size(new_size);
+    BlockBasedStream::resize(new_size);
+}
+
 void AESGCMCryptStream::flush() { m_stream->flush(); }
 
 bool AESGCMCryptStream::is_sparse() const noexcept { return m_stream->is_sparse(); }
@@ -163,8 +182,10 @@ bool AESGCMCryptStream::is_sparse() const noexcept { return m_stream->is_sparse(
 length_type
 AESGCMCryptStream::read_multi_blocks(offset_type start_block, offset_type end_block, void* output)
 {
-    if (end_block > MAX_BLOCKS)
-        throw StreamTooLongException(MAX_BLOCKS * get_block_size(), end_block * get_block_size());
+    // No file is longer than that.
+    end_block = std::min<offset_type>(end_block, MAX_BLOCKS);
+    if (start_block >= end_block)
+        return 0;
     std::vector<unsigned char> buffer((end_block - start_block) * get_underlying_block_size());
     length_type rc = m_stream->read(buffer.data(),
                                     get_header_size() + get_underlying_block_size() * start_block,
diff --git a/sources/lite_stream.h b/sources/lite_stream.h
index 79efb10..eb440d5 100644
--- a/sources/lite_stream.h
+++ b/sources/lite_stream.h
@@ -71,6 +71,9 @@ protected:
 
     void adjust_logical_size(length_type length) override;
 
+private:
+    void check_size(length_type new_size) const;
+
 public:
     explicit AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
                                const key_type& master_key,
@@ -90,6 +93,10 @@ public:
 
     virtual length_type size() const override;
 
+    void write(const void* input, offset_type offset, length_type length) override;
+
+    void resize(length_type new_size) override;
+
     virtual void flush() override;
 
     virtual bool is_sparse() const noexcept override;
-- 
2.43.0


From 389458c25493a12bfdaa6bb4370b9526f680adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:18 +0000
Subject: [PATCH 36/42] fix: link to a symbolic link itself in the full format

A hard link to a symbolic link was made to the file or directory which
the link's target names when it is looked up from the wrong place, such
as the root directory, leaving the directory tree with a cycle.
---
 sources/full_format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index b19d51b..8c15d9e 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -294,7 +294,8 @@ int FuseHighLevelOps::vsymlink(const char* to, const char* from, const fuse_cont
 };
 int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_context* ctx)
 {
-    auto opened = open_all(src, true);
+    // The link is to a symbolic link itself, not to what it points to.
+    auto opened = open_all(src);
     if (!opened)
     {
         return -ENOENT;
-- 
2.43.0


From 75c29e8fcd72ece0ac6afd212da5013aa2dd755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 37/42] fix: let only one of several starting processes lock a
 full repository

The lock file was created first and the process ID written afterwards, so
that another process starting at the same time took it for a stale one. It
also stayed behind when writing the process ID failed.
---
 sources/full_format.cpp | 71 ++++++++++++++++++++++++-----------------
 sources/full_format.h   |  2 +-
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 8c15d9e..b19db34 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -1,6 +1,7 @@
 #include "full_format.h"
 #include "exceptions.h"
 #include "files.h"
+#include "lock_guard.h"
 #include "logger.h"
 #include "myutils.h"
 #include "platform.h"
@@ -741,43 +742,55 @@ void FuseHighLevelOps::postprocess_stat(fuse_stat* st)
 
 void RepoLocker::check_lock_file()
 {
-    lock_stream_ = open_lock_stream_checked();
-    auto pid = absl::StrCat(OSService::get_current_process_id());
-    lock_stream_->resize(0);
-    lock_stream_->write(pid.data(), 0, pid.size());
-}
-
-std::shared_ptr<FileStream> RepoLocker::open_lock_stream_checked()
-{
-    try
-    {
-        return root_->open_file_stream(kLockFileName, O_RDWR | O_CREAT | O_EXCL, 0644);
-    }
-    catch (const ExceptionBase& e)
+    while (true)
     {
-        if (e.error_number() != EEXIST)
+        auto stream = root_->open_file_stream(kLockFileName, O_RDWR | O_CREAT, 0644);
+        // Only one process at a time may decide who owns the lock file.
+        LockGuard<FileStream> lg(*stream, true);
+        check_previous_owner(*stream);
+
+        fuse_stat st{};
+        stream->fstat(&st);
+        if (st.st_nlink == 0)
         {
-            throw;
+            // The previous owner has removed it since it was opened.
+            continue;
         }
-
-        auto result = root_->open_file_stream(kLockFileName, O_RDWR, 0644);
-        pid_t pid{};
-        if (absl::SimpleAtoi(result->as_string(), &pid) && OSService::is_process_running(pid))
+        try
         {
-            ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
-                      "the lock.",
-                      root_->norm_path_narrowed(kLockFileName),
-                      pid);
-            throw;
+            auto pid = absl::StrCat(OSService::get_current_process_id());
+            stream->resize(0);
+            stream->write(pid.data(), 0, pid.size());
         }
-        else
+        catch (...)
         {
-            WARN_LOG("Lock file %s exists but the process holding it has exited. The previous "
-                     "securefs probably exited abnormally.",
-                     root_->norm_path_narrowed(kLockFileName));
-            return result;
+            root_->remove_file_nothrow(kLockFileName);
+            throw;
         }
+        lock_stream_ = stream;
+        return;
+    }
+}
+
+void RepoLocker::check_previous_owner(FileStream& stream)
+{
+    auto content = stream.as_string();
+    if (content.empty())
+    {
+        return;
+    }
+    pid_t pid{};
+    if (absl::SimpleAtoi(content, &pid) && OSService::is_process_running(pid))
+    {
+        ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
+                  "the lock.",
+                  root_->norm_path_narrowed(kLockFileName),
+                  pid);
+        throwVFSException(EEXIST);
     }
+    WARN_LOG("Lock file %s exists but the process holding it has exited. The previous "
+             "securefs probably exited abnormally.",
+             root_->norm_path_narrowed(kLockFileName));
 }
 
 }    // namespace securefs::full_format
diff --git a/sources/full_format.h b/sources/full_format.h
index 7f91ed2..4372f5c 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -45,7 +45,7 @@ private:
     DISABLE_COPY_MOVE(RepoLocker)
 
     void check_lock_file();
-    std::shared_ptr<FileStream> open_lock_stream_checked();
+    void check_previous_owner(FileStream& stream);
 
     std::shared_ptr<OSService> root_;
     std::shared_ptr<FileStream> lock_stream_;
-- 
2.43.0


From ce0bd05e7acdc123a800841dc543630da49ec629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 38/42] fix: take over a lock file that holds the ID of the
 process itself

---
 sources/full_format.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index b19db34..6a8e8bb 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -780,7 +780,9 @@ void RepoLocker::check_previous_owner(FileStream& stream)
         return;
     }
     pid_t pid{};
-    if (absl::SimpleAtoi(content, &pid) && OSService::is_process_running(pid))
+    // An earlier process may have had the same ID as this one, which is common in containers.
+    if (absl::SimpleAtoi(content, &pid) && pid != OSService::get_current_process_id()
+        && OSService::is_process_running(pid))
     {
         ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
                   "the lock.",
-- 
2.43.0


From 2198f1c23a222f5243d80eaa87f188637a20db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 39/42] fix: leave nothing behind when creating the second
 stream of a file fails

---
 sources/file_table_v2.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 87a14e9..b15d937 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -245,6 +245,24 @@ FileTable::~FileTable()
 
 namespace
 {
+    FileStreamPtrPair
+    create_pair(OSService& root, const std::string& filename, const std::string& metaname)
+    {
+        int open_flags = O_RDWR | O_CREAT | O_EXCL;
+        auto data_stream = root.open_file_stream(filename, open_flags, 0644);
+        try
+        {
+            return std::make_pair(data_stream,
+                                  root.open_file_stream(metaname, open_flags, 0644));
+        }
+        catch (...)
+        {
+            data_stream.reset();
+            root.remove_file_nothrow(filename);
+            throw;
+        }
+    }
+
     class FileTableIOVersion1 : public FileTableIO
     {
     private:
@@ -291,9 +309,7 @@ namespace
             calculate_paths(id, first_level_dir, second_level_dir, filename, metaname);
             m_root->ensure_directory(first_level_dir, 0755);
             m_root->ensure_directory(second_level_dir, 0755);
-            int open_flags = O_RDWR | O_CREAT | O_EXCL;
-            return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
-                                  m_root->open_file_stream(metaname, open_flags, 0644));
+            return create_pair(*m_root, filename, metaname);
         }
 
         void unlink(const id_type& id) noexcept override
@@ -344,9 +360,7 @@ namespace
             std::string dir, filename, metaname;
             calculate_paths(id, dir, filename, metaname);
             m_root->ensure_directory(dir, 0755);
-            int open_flags = O_RDWR | O_CREAT | O_EXCL;
-            return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
-                                  m_root->open_file_stream(metaname, open_flags, 0644));
+            return create_pair(*m_root, filename, metaname);
         }
 
         void unlink(const id_type& id) noexcept override
-- 
2.43.0


From 3c51f21bc748dd8ac862c51da937790068c776de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 40/42] fix: initialize a root directory whose creation was
 interrupted

---
 sources/file_table_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index b15d937..2888ebd 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -24,6 +24,8 @@ void FileTable::init()
     try
     {
         pair = io_->open(kRootId);
+        // Creating it may have been interrupted before anything was written.
+        newly = pair.first->size() == 0 && pair.second->size() == 0;
     }
     catch (const ExceptionBase& e)
     {
-- 
2.43.0


From f64af9d865c8fe42a55b2c858de9789d507d92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:50 +0000
Subject: [PATCH 41/42] fix: restore directory pages that an update has read
 before it failed

---
 sources/btree_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index ddb47b0..81935ef 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -370,7 +370,7 @@ BtreeDirectory::Node* BtreeDirectory::retrieve_node(uint32_t parent_num, uint32_
     }
     auto n = make_unique<Node>(parent_num, num);
     read_node(num, *n);
-    save_for_undo(num, nullptr);
+    save_for_undo(num, n.get());
     auto result = n.get();
     m_node_cache.emplace(num, std::move(n));
     return result;
-- 
2.43.0


From 33579b961d03493051d1afd8d7a5a5679d102cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:33 +0000
Subject: [PATCH 42/42] fix: remove a root directory that could not be written
 when it was created

---
 sources/file_table_v2.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 2888ebd..8b50934 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -33,11 +33,26 @@ void FileTable::init()
         pair = io_->create(kRootId);
         newly = true;
     }
-    root_ = directory_factory_(pair.first, pair.second, kRootId);
-    if (newly)
+    try
     {
-        LockGuard<FileBase> lg(*root_);
-        root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
+        root_ = directory_factory_(pair.first, pair.second, kRootId);
+        if (newly)
+        {
+            LockGuard<FileBase> lg(*root_);
+            root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
+            root_->flush();
+        }
+    }
+    catch (...)
+    {
+        if (newly)
+        {
+            // A partly written root directory could never be opened again.
+            root_.reset();
+            pair = {};
+            io_->unlink(kRootId);
+        }
+        throw;
     }
 }
 FilePtrHolder FileTable::create_holder(FileBase* fb)
-- 
2.43.0

