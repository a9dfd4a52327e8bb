From 5c4429173cd250001488c1de054975008450867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 001/112] fix: XML_Item::Check stopped at first out-of-line
 param and accepted negative counts

---
 src/bin_xml.cpp | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..aec02c6 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -29,6 +29,7 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
     if (R == nullptr) return false;
     if (this < R->doc) return false; // out of space
     if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
+    if (length < (int)sizeof(XML_Item) || paramcount < 0 || childcount < 0) return false; // negative counts would defeat size check
     if (reinterpret_cast<const char *>(this)+length > reinterpret_cast<const char *>(R->doc)+R->size) return false;
     
     const char *p = reinterpret_cast<const char*>(this);
@@ -56,43 +57,57 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
         if (PD->type >= XBT_LAST) return false;
     // inline parameters
         if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
+        if (XBT_IS_4(PD->type)) continue;
     // check link
         if (PD->data < 0) return false; // reference out of node is not allowed here and yet
         if (PD->data >= length) return false; // pointer out of limit
         
 
+        bool ok = false;
         switch (PD->type)
         {
             case XBT_STRING:
                 {
                     int max_len = this->length - PD->data;
                     int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
+                    ok = len < max_len;
                 }
+                break;
+            case XBT_BLOB:
+            case XBT_HEX:
+            case XBT_BLOB_STRING:
+                if (PD->data+sizeof(int32_t) <= (unsigned)this->length)
+                {
+                    int32_t size = *reinterpret_cast<const int32_t*>(reinterpret_cast<const char *>(this)+PD->data);
+                    ok = size >= 0 && PD->data+sizeof(int32_t)+size <= (unsigned)this->length;
+                }
+                break;
             case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
+                ok = PD->data+sizeof(int64_t) <= (unsigned)this->length;
+                break;
             case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
+                ok = PD->data+sizeof(uint64_t) <= (unsigned)this->length;
+                break;
             case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
+                ok = PD->data+sizeof(uint64_t) <= (unsigned)this->length;
+                break;
             case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
+                ok = PD->data+sizeof(double) <= (unsigned)this->length;
+                break;
             case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
+                ok = PD->data+sizeof(hash192_t) <= (unsigned)this->length;
+                break;
             case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
+                ok = PD->data+sizeof(GUID_t) <= (unsigned)this->length;
+                break;
             case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
+                ok = PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
+                break;
             default:
                 std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
                 return false;
         }
+        if (!ok) return false;
     }
 // TODO: check value
 
-- 
2.43.0


From 481065d35c267748ebfc1bbb79bb6c1f44de5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 002/112] fix: UNIX_DATE attributes are stored inline, reader
 has to treat them as 4 byte values

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..11d0a37 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32 || (type) == XBT_UNIX_DATE)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From 49ed0406fb30230340187da946d81bec4316d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 003/112] fix: only 4 byte types may be stored inline in
 attribute descriptor

---
 src/bin_xml_creator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..1181e2e 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -921,11 +921,10 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
     }
     else
     {
-        int size = XBT_Size2(type,0); // empty size of type
         char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
         // bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
         
-        if (type != XBT_STRING && size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+        if (XBT_IS_4(type) && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
         { // store parameter value directly to params.data
             ASSERT_NO_DO_NOTHING(1207,in_place_wp == reinterpret_cast<char*>(&xstore_data->params->data) + 4);
             xstore_data->params->type = type;
@@ -970,9 +969,8 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         type = static_cast<XML_Binary_Type>(xstore_data->creator->symbol_table_types[SYMBOL_TABLE_PARAMS][name_id]);
 
     type = XBT_Detect2(param_value,type);
-    int size = XBT_Size2(type,0);
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    if (XBT_IS_4(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
-- 
2.43.0


From de73cf76f34fff415200c11c3a7d22b618593ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 004/112] fix: symbol table load validates counts and that its
 data lie inside container

---
 src/bin_xml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index aec02c6..d22b055 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -640,6 +640,7 @@ const char *XML_Param_Description::getString(const XML_Item *X) const
 _XB_symbol_table::_XB_symbol_table()
 {
     count = 0;
+    type_count = 0;
 // these pointers refers to xb content directly
     item_container = nullptr;
     reference_array = nullptr;
@@ -661,13 +662,13 @@ bool _XB_symbol_table::Load(XML_Item *container)
 {
     item_container = container;
     count = container->getParamByName(XPNR_COUNT)->getInt(container);
-    if (count == INT32_NULL) return false;
+    if (count == INT32_NULL || count < 0) return false;
     if (count == 0) return true; // ok, no symbols
 
     type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
     if (type_count == INT32_NULL)
         type_count = 0;
-
+    if (type_count < 0) return false;
     
     int32_t size = -1; // size of whole data block - reference_array & strings
     reference_array = reinterpret_cast<const relative_ptr_t*>(container->getBinary(&size));
@@ -682,6 +683,7 @@ bool _XB_symbol_table::Load(XML_Item *container)
     type_array = reinterpret_cast<const XML_Binary_Type_Stored*>(reference_array+count);
     const char *A0 = reinterpret_cast<const char*>(type_array+type_count);  // start of string area after last item in reference_array
     const char *A1 = reinterpret_cast<const char*>(reference_array)+size;   // end of string area as begin of binary data + it's size
+    if (A1 > reinterpret_cast<const char*>(container)+container->length) return false; // data block out of container
     if (A0 > A1) return false; // no place for strings and reference_arrays
     for(int s = 0;s < count;s++)
     {
@@ -737,6 +739,7 @@ XB_reader::XB_reader(char *filename)
     this->filename = filename;
     this->size = -1;
     this->fd = -1;
+    this->verbosity = 0;
     
     this->doc = reinterpret_cast<XML_Item*>(MAP_FAILED);
     this->data = nullptr;
-- 
2.43.0


From a198900753eb18d0846c3f3a650ff79c35c8bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 005/112] fix: child references are checked before child header
 is read

---
 src/bin_xml.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index d22b055..0b29468 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -112,13 +112,14 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
 // TODO: check value
 
 
-    if (recursive)
-        for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
-        }
+    for(int i = 0;i < childcount;i++)
+    {
+        XML_Item *X = getChildByIndex(i);
+        if (X == nullptr) return false;
+    // header of every child must be readable - even when children are not checked
+        if (X < R->doc || reinterpret_cast<const char *>(X)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
+        if (recursive && !X->Check(R,true)) return false;
+    }
             
     return true;
 }
-- 
2.43.0


From 15fb64b168ae4135fe7f845705d090de9c5e06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 006/112] fix: last day of a leap year is a valid day of the
 year

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..f6de496 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -644,13 +644,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
-- 
2.43.0


From f167870b525aabdf773787bbb8e4f0cf1ab3d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 007/112] fix: UNIX_TIME64_MSEC is written with the 8 byte
 alignment it is read with

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..a42e824 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -622,7 +622,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
+                AA8(*_wp);
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
-- 
2.43.0


From a4ab83cdf822e6db3cec6e6a42a11a0a9ac1cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 008/112] fix: minimal INT64 value is printed

---
 src/bin_xml_types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index a42e824..58a1584 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -922,9 +922,9 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     strcpy(dst,"0");
                     return 1;
                 }
-                if (value == -576460752303423488) 
+                if (value == INT64_MIN) 
                 {
-                    strcpy(dst,"9223372036854775808");
+                    strcpy(dst,"-9223372036854775808");
                     return strlen(dst);
                 }
                 //if (value == -0x8000000000000000) return "9223372036854775808";
-- 
2.43.0


From d113dd0867d009980453d9ffd46180a5ac9b95e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 009/112] fix: negative decimals greater than -1 keep their
 sign, INT32_MIN is printed

---
 src/bin_xml_types.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 58a1584..536ae0c 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -854,7 +854,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
+                snprintf(dst,dst_size,"%s%d.%d",V < 0 ? "-" : "",ABS(V / 10),ABS(V % 10));
                 return strlen(dst);
             }
         case XBT_INT32_CENTI:     
@@ -863,7 +863,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
+                snprintf(dst,dst_size,"%s%d.%02d",V < 0 ? "-" : "",ABS(V / 100),ABS(V % 100));
                 return strlen(dst);
             }
         case XBT_INT32_MILI:     
@@ -872,7 +872,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
+                snprintf(dst,dst_size,"%s%d.%03d",V < 0 ? "-" : "",ABS(V / 1000),ABS(V % 1000));
                 return strlen(dst);
             }
         case XBT_INT32_MICRO:     
@@ -881,7 +881,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
+                snprintf(dst,dst_size,"%s%d.%06d",V < 0 ? "-" : "",ABS(V / 1000000),ABS(V % 1000000));
                 return strlen(dst);
             }
         case XBT_INT32_NANO:     
@@ -890,7 +890,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                snprintf(dst,dst_size,"%s%d.%09d",V < 0 ? "-" : "",ABS(V / 1000000000),ABS(V % 1000000000));
                 return strlen(dst);
             }
 
-- 
2.43.0


From 8997e427da6ba2fa44707edf8ca258ea05ffade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 010/112] fix: UNIX_TIME64_MSEC hours are printed with 2 digits

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 536ae0c..8a76371 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1006,7 +1006,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
                 return strlen(dst);
             }
         case XBT_BLOB:
-- 
2.43.0


From 6e9f5a503dc6c405cf733fb711a05ebe48427f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 011/112] fix: HEX chunk does not count its terminating zero

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 8a76371..e3e4d41 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1051,7 +1051,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return hex_len+1;
             }
         case XBT_GUID:
             {
-- 
2.43.0


From 0daa6090fb9ce2e006497f3a169f0d5604858592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 012/112] fix: GUID is printed with dashes

---
 src/bin_xml_types.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index e3e4d41..cbe5bdf 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1055,16 +1055,10 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
+                if (offset > 0) return 0;
                 offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                GUID2Str(data,dst); // 8-4-4-4-12
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From 80dcc4a490f033b4b155d00c50f98c5ce5728855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 013/112] fix: detected UINT32 and DOUBLE values can be stored,
 DOUBLE and IPv4 printed

---
 src/bin_xml_types.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index cbe5bdf..a66b688 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -607,6 +607,16 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             *reinterpret_cast<float*>(*_wp) = atof(src);
             *_wp += sizeof(float);
             return true;
+        case XBT_DOUBLE:
+            AA8(*_wp);
+            *reinterpret_cast<double*>(*_wp) = atof(src);
+            *_wp += sizeof(double);
+            return true;
+        case XBT_UINT32:
+            AA(*_wp);
+            *reinterpret_cast<uint32_t*>(*_wp) = strtoul(src,nullptr,10);
+            *_wp += sizeof(uint32_t);
+            return true;
         case XBT_UNIX_TIME:
             {
                 AA(*_wp);
@@ -731,6 +741,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
+        case XBT_IPv4:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -970,6 +982,12 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
             snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
             return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+
+            snprintf(dst,dst_size,"%.17g",*reinterpret_cast<const double*>(data));
+            return strlen(dst);
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
-- 
2.43.0


From 001810fc1195818ab5c0f16d35513b0b9b882ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 014/112] fix: string joined to VARIANT gives STRING regardless
 of order of values

---
 src/bin_xml_types.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index a66b688..400fa4c 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -250,7 +250,6 @@ XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B)
 
 XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
 {
-    if (expected == XBT_VARIANT) return expected; // non compatible types
     XML_Binary_Type detected = XBT_Detect(value);
     return XBT_JoinTypes(detected,expected);
 }
-- 
2.43.0


From 278be285ef6bd336e3c6fae35c3f76a9801e28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 015/112] fix: output buffer is large enough for many small
 elements and params

---
 src/bin_xml_creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 1181e2e..5f01743 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -395,6 +395,9 @@ bool Bin_xml_creator::Make_xb()
     // 3. allocate and fill--------------------------
     src->updateFileSize();
     this->data_size_allocated = 1024 + src->getFileSize()*4;
+    this->data_size_allocated += strlen(src->getFilename());
+    // headers, links, types and alignment of small nodes & params are bigger than their source
+    this->data_size_allocated += total_node_count*(sizeof(XML_Item)+sizeof(relative_ptr_t)+16) + total_param_count*(sizeof(XML_Param_Description)+16);
     this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
-- 
2.43.0


From 6b0420940740f9149a57cedd3f9579be01e303e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 016/112] fix: 64 bit integer text is zero terminated

---
 src/bin_xml_types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 400fa4c..f939391 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -950,7 +950,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 }
                 if (neg) *(--d) = '-';
                 int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
+                memmove(dst,d,len+1); // with terminating zero
                 return len;
             }
         case XBT_UINT64:
@@ -972,7 +972,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     value /= 10;
                 }
                 int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
+                memmove(dst,d,len+1); // with terminating zero
                 return len;
             }
         case XBT_FLOAT:
-- 
2.43.0


From a4e62aaeea6ff119928e35b1904866bb98eed615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 017/112] fix: packing of duplicate nodes keeps alignment of 8
 byte values

---
 src/bin_xml_packer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..26f1479 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -274,6 +274,13 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
         assert(R2_src->name == XTNR_PROCESSED); // must be processed now
         return this->data2 + R2_src->reference;
     }
+// 8 byte values are aligned by their address -> position of node modulo 8 must be kept
+    if (((*_wp - data2) ^ (_X - data)) & 4)
+    {
+        *_wp += 4;
+        _x = *_wp;
+        X_dst = reinterpret_cast<XML_Item*>(_x);
+    }
 // plain virgin copy
     memcpy(reinterpret_cast<void*>(*_wp),reinterpret_cast<void*>(X_src),X_src->length);
 
-- 
2.43.0


From e543eef48e2719346b2ef738c038a3b15f00f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 018/112] fix: records appended behind the document are
 validated before they are used

---
 src/bin_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 0b29468..c60b28d 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -295,7 +295,7 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     
     if (offset + (int)sizeof(XML_Item) > (int)R.size) return nullptr; // end of data -> no more can fit
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
-    if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
+    if (!X->Check(&R,true)) return nullptr; // something is strange - no valid whole XML_Item is stored in file
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
-- 
2.43.0


From 98482791505a5a67e923c7d38f62b843de0c6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 019/112] fix: value of an element is validated like values of
 its params

---
 src/bin_xml.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index c60b28d..b4438c3 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -109,7 +109,33 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
         }
         if (!ok) return false;
     }
-// TODO: check value
+// value check
+    const char *value = reinterpret_cast<const char *>(this+1)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t);
+    const char *limit = reinterpret_cast<const char *>(this)+length;
+    if (value >= limit) return false; // no type of value
+    const XML_Binary_Type_Stored value_type = static_cast<XML_Binary_Type_Stored>(*(value++));
+    if (value_type == XBT_STRING)
+    {
+        const size_t max_len = limit - value;
+        if (strnlen(value,max_len) >= max_len) return false; // unterminated string
+    }
+    else if (value_type != XBT_NULL)
+    {
+        if (XBT_IS_8(value_type))
+            AA8(value);
+        else
+            AA(value);
+        int64_t value_size = XBT_IS_4(value_type) ? 4 : XBT_FIXEDSIZE(value_type);
+        if (XBT_IS_VARSIZE(value_type))
+        {
+            if (limit - value < (int)sizeof(int32_t)) return false; // size of value is out of node
+            const int32_t content_size = *reinterpret_cast<const int32_t*>(value);
+            if (content_size < 0) return false;
+            value_size = static_cast<int64_t>(sizeof(int32_t)) + content_size;
+        }
+        if (value_size < 0) return false; // unknown type of value
+        if (limit - value < value_size) return false; // value is out of node
+    }
 
 
     for(int i = 0;i < childcount;i++)
-- 
2.43.0


From 82c73c6e0a905392e65f2ceefda90e093f000672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 020/112] fix: symbols with explicit id can be registered into
 an empty pool

---
 src/bin_write_plugin.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..8c88bc8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1438,6 +1438,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
+    if (size == 0) // empty table starts at the end of used space
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
                 __FUNCTION__,pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,
@@ -2047,6 +2053,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
+    dst -= sizeof(int16_t)+sizeof(XML_Binary_Type_Stored); // start of record
     ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
-- 
2.43.0


From 9540c94448042dd7006715d0f3d0727ee0ada26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 021/112] fix: a value which cannot be stored makes creation of
 the document fail

---
 src/bin_xml_creator.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 5f01743..822fdc9 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -407,6 +407,7 @@ bool Bin_xml_creator::Make_xb()
         return false;
     }
     this->dst_file_size = FillData();
+    ASSERT_NO_RET_FALSE(2118,this->dst_file_size > 0);
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
     {
@@ -521,7 +522,7 @@ bool Bin_xml_creator::Append(void *element)
 
     char *wp = data+file_align;
     AA(wp);
-    this->WriteNode(&wp,element);
+    ASSERT_NO_RET_FALSE(2117,this->WriteNode(&wp,element) != nullptr);
     
     int size = wp - data - file_align;
     int written = write(dst_file,data+file_align,size);
@@ -714,7 +715,9 @@ int32_t Bin_xml_creator::FillData()
 // children
     children[0] = WriteChildSymbols(&_wp,XTNR_TAG_SYMBOLS,SYMBOL_TABLE_NODES) - _x;
     children[1] = WriteChildSymbols(&_wp,XTNR_PARAM_SYMBOLS,SYMBOL_TABLE_PARAMS) - _x;
-    children[2] = WritePayloadContainer(&_wp,XTNR_PAYLOAD,src->getRoot()) - _x;
+    const char *payload = WritePayloadContainer(&_wp,XTNR_PAYLOAD,src->getRoot());
+    ASSERT_NO_RET_N1(2119,payload != nullptr);
+    children[2] = payload - _x;
 
 //---------------------------
     X->length = _wp-data; // will set later
@@ -807,7 +810,9 @@ const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_
 // data
     *((*_wp)++) = XBT_NULL; // no data
 
-    children[0] = WriteNode(_wp,root) - _x;
+    const char *node = WriteNode(_wp,root);
+    ASSERT_NO_RET_NULL(2120,node != nullptr);
+    children[0] = node - _x;
     assert((children[0] & 3) == 0);
 
 //-------------------------------------------------------------------------------------------------
@@ -879,6 +884,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     if (!src->ForAllBinParams(XStoreBinParamsEvent,element,&xstore_data))
         src->ForAllParams(XStoreParamsEvent,element,&xstore_data);
     src->ForAllChildren(XStoreChildrenEvent,element,&xstore_data);
+    ASSERT_NO_RET_NULL(2121,xstore_data._wp != nullptr); // some param or child was not stored
 
     X->length = *_wp - _x;
     assert(X->length > 0);
@@ -903,6 +909,7 @@ void Bin_xml_creator::XCountChildrenEvent(void *element,void *userdata)
 void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
 {
     XStoreParamsData *xstore_data = reinterpret_cast<XStoreParamsData*>(userdata);
+    if (xstore_data->_wp == nullptr) return; // something before already failed
     // TODO: translate param_id
 //    int name_id = 
         xstore_data->params->name = 
@@ -948,7 +955,12 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
         LOG("-- Storing %s : time64 %s to pointer %p -> %p-%p ... offset=%d",
             param_name,XBT_ToString(type,param_value),param_value,*xstore_data->_wp,xstore_data->_x,xstore_data->params->data);
 */
-    ASSERT_NO_DO_NOTHING(1206,XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated));
+    if (!XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    {
+        LOG_ERROR("[A1206] value of param %s cannot be stored",param_name);
+        xstore_data->_wp = nullptr; // failure
+        return;
+    }
     xstore_data->params++;
 }
 
@@ -992,7 +1004,14 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
 void Bin_xml_creator::XStoreChildrenEvent(void *element,void *userdata)
 {
     XStoreParamsData *xstore_data = reinterpret_cast<XStoreParamsData*>(userdata);
-    *(xstore_data->children++) = xstore_data->creator->WriteNode(xstore_data->_wp,element) - xstore_data->_x;
+    if (xstore_data->_wp == nullptr) return; // something before already failed
+    const char *node = xstore_data->creator->WriteNode(xstore_data->_wp,element);
+    if (node == nullptr)
+    {
+        xstore_data->_wp = nullptr; // failure
+        return;
+    }
+    *(xstore_data->children++) = node - xstore_data->_x;
 }
 
 void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
-- 
2.43.0


From 067b149395f88a6bee02e27460f75dee70abe6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 022/112] fix: a symbol which cannot be registered makes
 creation of the xbw file fail

---
 src/bin_xml_creator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 822fdc9..f25627b 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -631,10 +631,10 @@ bool Bin_xml_creator::Make_xbw()
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]));
+        ASSERT_NO_RET_FALSE(2122,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]));
+        ASSERT_NO_RET_FALSE(2123,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
-- 
2.43.0


From 5f9cb1270a262dd8e3f0f53d342b4db4595ce7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 023/112] fix: failed close of the created document is reported

---
 src/bin_xml_creator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index f25627b..3971260 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -440,10 +440,11 @@ bool Bin_xml_creator::Make_xb()
         write(dst_file,data,dst_file_size);
     assert(written == dst_file_size);
 
-    close(dst_file);
+    int close_err = close(dst_file);
+    if (close_err != 0)
+        std::cerr << "error: " << strerror(errno) << " while closing " << dst << "\n";
 
-
-    return (written == dst_file_size);
+    return (written == dst_file_size) && close_err == 0;
 }
 
 bool Bin_xml_creator::CopySymbolTable() 
-- 
2.43.0


From 8ccb78212ea01d37ac6aa05addafc15bdbf6a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 024/112] fix: malformed or empty JSON is refused by the first
 parsing pass

---
 src/bin_json_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..ba2fad1 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -111,6 +111,7 @@ bool Bin_json_plugin::Initialize()
 	jsmn_init(&JP);
 	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
+	if (num_tokens0 <= 0) return false; // malformed or empty
 
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
-- 
2.43.0


From 0bf28b66f138b7662a92bd337d6ef20f47c3c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 025/112] fix: descriptor of opened JSON file is closed

---
 src/bin_json_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index ba2fad1..e52143b 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -91,7 +91,7 @@ bool Bin_json_plugin::Initialize()
 
 	// 1. open file & mmap	
 	std::cout << "1 open & mmap ...\n";
-	int fd = open(filename,O_RDONLY);
+	fd = open(filename,O_RDONLY);
 	if (fd == -1)
 	{
 		ERRNO_SHOW(1003,"open",filename);
-- 
2.43.0


From 2a13e2d0fc4b04513b39458fede57c75b92182c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 026/112] fix: directory handle is closed when readdir fails

---
 src/files.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/files.cpp b/src/files.cpp
index d7521f6..83a45a4 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -164,6 +164,7 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
     if (errno != 0)
     {
         ERRNO_SHOW(1102,"readdir",base_dir);
+        closedir(dir);
         return false;
     }
     if (closedir(dir) != 0)
-- 
2.43.0


From 037fa45b1db8c276f8c1ca424bbf46640af06c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 027/112] fix: file is closed when formatting into it fails

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f6de496..ecae07d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -26,14 +26,14 @@ bool WriteToFile(const char *filename,const char *fmt,...)
     va_start(ap,fmt);
     
     int ok = vfprintf(f,fmt,ap);
+    va_end(ap);
     if (ok < 0)
     {
         ERRNO_SHOW(1008,"WriteToFile-fprintf",fmt);
+        fclose(f);
         return false;
     }
 
-    va_end(ap);
-
     if (fclose(f) == EOF)
     {
         ERRNO_SHOW(1009,"WriteToFile-fclose",filename);
-- 
2.43.0


From fbef026047207b5f00c66a4576cbc7eb17830a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 028/112] fix: symbol tables allocated by malloc are released
 by free

---
 src/bin_xml_creator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 3971260..0f5b22f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -340,8 +340,8 @@ Bin_xml_creator::~Bin_xml_creator()
         {
             free((void*)symbol_table[t][i]);
         }
-        delete [] symbol_table[t];
-        delete [] symbol_table_types[t];
+        free(symbol_table[t]); // allocated by malloc
+        free(symbol_table_types[t]);
         symbol_table[t] = nullptr;
         symbol_table_types[t] = nullptr;
         symbol_count[t] = 0;
-- 
2.43.0


From ae1ac9e5a0df4f30f542c38e8bc82c1476eb5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 029/112] fix: creator releases its serialisation buffer

---
 src/bin_xml_creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 0f5b22f..9d942e0 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -346,6 +346,8 @@ Bin_xml_creator::~Bin_xml_creator()
         symbol_table_types[t] = nullptr;
         symbol_count[t] = 0;
     }
+    free(data);
+    data = nullptr;
     if (dst_file != -1)
     { // dst_file can be closed in destructor
         close(dst_file);
@@ -398,6 +400,7 @@ bool Bin_xml_creator::Make_xb()
     this->data_size_allocated += strlen(src->getFilename());
     // headers, links, types and alignment of small nodes & params are bigger than their source
     this->data_size_allocated += total_node_count*(sizeof(XML_Item)+sizeof(relative_ptr_t)+16) + total_param_count*(sizeof(XML_Param_Description)+16);
+    free(this->data); // from previous run
     this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
-- 
2.43.0


From e8e7745ff2d393752be726d24edb932c10657718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 030/112] fix: failed mapping of xbw file is not unmapped later

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 8c88bc8..28ae69b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1877,6 +1877,7 @@ bool BW_plugin::Initialize()
         if (pool == MAP_FAILED)
         {
             ERRNO_SHOW(1049,"mmap",filename);
+            this->pool = nullptr; // nothing to unmap in Finalize
             return false;
         }
         if (file_size < (int)sizeof(*pool)) file_size = 0; // too small - deleting
-- 
2.43.0


From 9d83976f475891883b84d75757408b157bc90ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 031/112] fix: creator without target name takes name of its
 source

---
 src/bin_xml_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 9d942e0..696bb88 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -309,6 +309,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->src = src;
     this->src->LinkCreator(this); // link it
     this->src_allocated = false;
+    const char *dst = src->getFilename(); // there is no other name
     this->target = target;
     if (target == XBTARGET_XB)
         this->dst = AllocFilenameChangeExt(dst,".xb");
-- 
2.43.0


From c787ab836049224cfd5b58550d713b8e9044a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 032/112] fix: failed allocation of symbol tables is not used

---
 src/bin_xml_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 696bb88..8dfe1dd 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -461,6 +461,7 @@ bool Bin_xml_creator::CopySymbolTable()
         int count = /*this->symbol_count[t] = */src->getSymbolCount((SymbolTableTypes)t);
         this->symbol_table[t] = reinterpret_cast<const char **>(malloc(sizeof(char*)*count));
         this->symbol_table_types[t] = reinterpret_cast<XML_Binary_Type_Stored*>(malloc(sizeof(XML_Binary_Type_Stored)*count));
+        ASSERT_NO_RET_FALSE(2208,count <= 0 || (symbol_table[t] != nullptr && symbol_table_types[t] != nullptr));
         for(int i = 0;i < count;i++)
         {
             XML_Binary_Type type;
-- 
2.43.0


From ea0b95fa111daece6a3f693a9d6fe7bd90daf2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 033/112] fix: codes of assertions added by earlier fixes are
 unique

---
 src/bin_xml_creator.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 8dfe1dd..9c58b34 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -411,7 +411,7 @@ bool Bin_xml_creator::Make_xb()
         return false;
     }
     this->dst_file_size = FillData();
-    ASSERT_NO_RET_FALSE(2118,this->dst_file_size > 0);
+    ASSERT_NO_RET_FALSE(2201,this->dst_file_size > 0);
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
     {
@@ -528,7 +528,7 @@ bool Bin_xml_creator::Append(void *element)
 
     char *wp = data+file_align;
     AA(wp);
-    ASSERT_NO_RET_FALSE(2117,this->WriteNode(&wp,element) != nullptr);
+    ASSERT_NO_RET_FALSE(2202,this->WriteNode(&wp,element) != nullptr);
     
     int size = wp - data - file_align;
     int written = write(dst_file,data+file_align,size);
@@ -637,10 +637,10 @@ bool Bin_xml_creator::Make_xbw()
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        ASSERT_NO_RET_FALSE(2122,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
+        ASSERT_NO_RET_FALSE(2203,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        ASSERT_NO_RET_FALSE(2123,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
+        ASSERT_NO_RET_FALSE(2204,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
@@ -722,7 +722,7 @@ int32_t Bin_xml_creator::FillData()
     children[0] = WriteChildSymbols(&_wp,XTNR_TAG_SYMBOLS,SYMBOL_TABLE_NODES) - _x;
     children[1] = WriteChildSymbols(&_wp,XTNR_PARAM_SYMBOLS,SYMBOL_TABLE_PARAMS) - _x;
     const char *payload = WritePayloadContainer(&_wp,XTNR_PAYLOAD,src->getRoot());
-    ASSERT_NO_RET_N1(2119,payload != nullptr);
+    ASSERT_NO_RET_N1(2205,payload != nullptr);
     children[2] = payload - _x;
 
 //---------------------------
@@ -817,7 +817,7 @@ const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_
     *((*_wp)++) = XBT_NULL; // no data
 
     const char *node = WriteNode(_wp,root);
-    ASSERT_NO_RET_NULL(2120,node != nullptr);
+    ASSERT_NO_RET_NULL(2206,node != nullptr);
     children[0] = node - _x;
     assert((children[0] & 3) == 0);
 
@@ -890,7 +890,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     if (!src->ForAllBinParams(XStoreBinParamsEvent,element,&xstore_data))
         src->ForAllParams(XStoreParamsEvent,element,&xstore_data);
     src->ForAllChildren(XStoreChildrenEvent,element,&xstore_data);
-    ASSERT_NO_RET_NULL(2121,xstore_data._wp != nullptr); // some param or child was not stored
+    ASSERT_NO_RET_NULL(2207,xstore_data._wp != nullptr); // some param or child was not stored
 
     X->length = *_wp - _x;
     assert(X->length > 0);
-- 
2.43.0


From 649b81ed25f3b9ccaa85acd76c03db8f6bd7d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 034/112] fix: markup characters in values are escaped when
 document is printed

---
 src/bin_xml.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index b4438c3..3b2ce2a 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -563,6 +563,19 @@ XML_Binary_Data_Ref XML_Item::getData()
     return R;
 }
 
+static void s_WriteEscaped(std::ostream& os,const char *text,int len)
+{
+    for(int i = 0;i < len;i++)
+        switch (text[i])
+        {
+            case '<': os << "&lt;"; break;
+            case '>': os << "&gt;"; break;
+            case '&': os << "&amp;"; break;
+            case '\"': os << "&quot;"; break;
+            default: os << text[i];
+        }
+}
+
 void XML_Item::write(std::ostream& os,XB_reader &R,int deep) 
 {
     if (THIS_IS_NULL) return;
@@ -584,8 +597,8 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         for(int offset = 0;;)
         {
             int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
-            if (len == 0) break;// TODO: escape param_value!
-            os << buffer;
+            if (len == 0) break;
+            s_WriteEscaped(os,buffer,len);
         }
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
@@ -619,22 +632,22 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         {
             int len = getStringChunk(offset,buffer,sizeof(buffer));
             if (len == 0) break;
-        // TODO: escape param_value!
-            os << buffer;
+            s_WriteEscaped(os,buffer,len);
         }
-        os << "\n";    // TODO: escape value!
+        os << "\n";
         TAB;os << "</" << R.getNodeName(name) << ">\n";
     }
     else
     {
         int offset = 0;
-        if (getStringChunk(offset,buffer,sizeof(buffer)) == 0)
+        int len = getStringChunk(offset,buffer,sizeof(buffer));
+        if (len == 0)
                 os << "/>\n";
         else
         {
-                os << ">" << buffer;
-                while (getStringChunk(offset,buffer,sizeof(buffer)) > 0)
-                    os << buffer;
+                os << ">";
+                for(;len > 0;len = getStringChunk(offset,buffer,sizeof(buffer)))
+                    s_WriteEscaped(os,buffer,len);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
-- 
2.43.0


From e257a62a67a3b65ea6ae40b4f81ef530bf191133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 035/112] fix: text values of XML and JSON sources are printed

---
 src/bin_xml_creator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 9c58b34..0807f3f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -214,9 +214,14 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 
 
 // value info
-    XML_Binary_Type value_type;
+    XML_Binary_Type value_type = XBT_NULL;
     int value_size = 0;
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
+    if (value_type == XBT_UNKNOWN) // source has only text values
+    {
+        value = CTX->src->getNodeValue(element);
+        value_type = value == nullptr ? XBT_NULL : XBT_STRING;
+    }
 
     if (CTX->sibling_count == 0) 
         if (value == nullptr) CTX->os << "/>\n";
-- 
2.43.0


From 24d72e8ac9d3484a8812592ffbfc0ce85c8b997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 036/112] fix: element without value crashed conversion to xbw

---
 src/bin_xml_creator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 0807f3f..b911a9b 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1081,6 +1081,8 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     if (from_text) // text analyse solution when binary is not available
     {
         tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        if (value == nullptr || (*value == '\0' && tag_type != XBT_STRING))
+            tag_type = XBT_NULL; // this one has no value
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
     // if size of result is only result, it is waste of CPU time.
-- 
2.43.0


From 93d22d13ad709f6f58be34935a0644bf199751a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 037/112] fix: conversion from text checks free space of its
 target

---
 src/bin_write_plugin.cpp |  2 +-
 src/bin_xml_types.cpp    | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 28ae69b..e477be0 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1793,7 +1793,7 @@ BW_element* BW_pool::tagAny(int16_t id,XML_Binary_Type type,const char *data_as_
 
     //bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
     char *wp = reinterpret_cast<char*>(result+1);
-    ASSERT_NO_RET_NULL(2061,XBT_FromString(data_as_string,type,&wp,wp+data_size));
+    ASSERT_NO_RET_NULL(2061,XBT_FromString(data_as_string,type,&wp,wp+XBT_Size2(type,data_size)));
 
     return result;
 }
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f939391..de3a410 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -501,6 +501,20 @@ static int32_t str2dec(const char *src,int decimals)
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
 {
+// value must fit to free space, XBT_HEX has only its size here and is limited later
+    const char *aligned = *_wp;
+    int align_size = XBT_Align(type);
+    if (align_size == 4)
+        AA(aligned);
+    else if (align_size == 8)
+        AA8(aligned);
+    int64_t value_size = type == XBT_STRING ? strlen(src)+1 : XBT_Size2(type,0);
+    if (limit - aligned < value_size)
+    {
+        fprintf(stderr,"%s: No space for value '%s'!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+        return false;
+    }
+
     switch (type)
     {
         case XBT_NULL:
-- 
2.43.0


From 34f3ae1752067137db039393b8686b12ebda1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 038/112] fix: nodes and symbol tables are never written behind
 the end of output buffer

---
 src/bin_xml_creator.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index b911a9b..3633b2d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -724,8 +724,12 @@ int32_t Bin_xml_creator::FillData()
     params[3].type = XBT_UNIX_TIME;
     params[3].data = file_gettime(src->getFilename());  // direct stored
 // children
-    children[0] = WriteChildSymbols(&_wp,XTNR_TAG_SYMBOLS,SYMBOL_TABLE_NODES) - _x;
-    children[1] = WriteChildSymbols(&_wp,XTNR_PARAM_SYMBOLS,SYMBOL_TABLE_PARAMS) - _x;
+    const char *tag_symbols = WriteChildSymbols(&_wp,XTNR_TAG_SYMBOLS,SYMBOL_TABLE_NODES);
+    ASSERT_NO_RET_N1(2214,tag_symbols != nullptr);
+    children[0] = tag_symbols - _x;
+    const char *param_symbols = WriteChildSymbols(&_wp,XTNR_PARAM_SYMBOLS,SYMBOL_TABLE_PARAMS);
+    ASSERT_NO_RET_N1(2215,param_symbols != nullptr);
+    children[1] = param_symbols - _x;
     const char *payload = WritePayloadContainer(&_wp,XTNR_PAYLOAD,src->getRoot());
     ASSERT_NO_RET_N1(2205,payload != nullptr);
     children[2] = payload - _x;
@@ -739,6 +743,12 @@ const char *Bin_xml_creator::WriteChildSymbols(char **_wp,tag_name_id_t tag_name
 {
     AA(*_wp); //===============================================================================
 
+    // type of value, alignments and size of data should fit too
+    int64_t needed = sizeof(XML_Item) + 2*sizeof(XML_Param_Description) + 1+3 + sizeof(int32_t) + 3;
+    for(int i = 0;i < this->symbol_count[symbol_table];i++)
+        needed += sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored) + strlen(this->symbol_table[symbol_table][i])+1;
+    ASSERT_NO_RET_NULL(2213,data+data_size_allocated - *_wp >= needed);
+
     XML_Item *X = reinterpret_cast<XML_Item *>(*_wp);
     const char *_x = *_wp;
     *_wp += sizeof(XML_Item);
@@ -808,6 +818,7 @@ const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_
 {
     AA(*_wp); //===============================================================================
 
+    ASSERT_NO_RET_NULL(2212,data+data_size_allocated - *_wp > (int64_t)(sizeof(XML_Item)+sizeof(relative_ptr_t))); // no space
     XML_Item *X = reinterpret_cast<XML_Item *>(*_wp);
     const char *_x = *_wp;
     *_wp += sizeof(XML_Item);
@@ -835,6 +846,8 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 {
     AA(*_wp); //===============================================================================
 
+    const char *limit = data+data_size_allocated;
+    ASSERT_NO_RET_NULL(2209,limit - *_wp >= (int64_t)sizeof(XML_Item)); // no space for header
     XML_Item *X = reinterpret_cast<XML_Item *>(*_wp);
     const char *_x = *_wp;
     *_wp += sizeof(XML_Item);
@@ -849,6 +862,8 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     
     X->childcount = 0;  // count them
     src->ForAllChildren(XCountChildrenEvent,element,X);
+    ASSERT_NO_RET_NULL(2210,X->paramcount >= 0); // too many params
+    ASSERT_NO_RET_NULL(2211,limit - *_wp > (int64_t)sizeof(XML_Param_Description)*X->paramcount + (int64_t)sizeof(relative_ptr_t)*X->childcount); // no space for tables and type of value
 //-----------------------------------------------   
     XStoreParamsData xstore_data;
     xstore_data.creator = this;
@@ -904,11 +919,13 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 
 void Bin_xml_creator::XCountBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
 {
+    if (reinterpret_cast<XML_Item*>(userdata)->paramcount < 0) return; // overflow
     reinterpret_cast<XML_Item*>(userdata)->paramcount++; // how much they are
 }
 
 void Bin_xml_creator::XCountParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
+    if (reinterpret_cast<XML_Item*>(userdata)->paramcount < 0) return; // overflow
     reinterpret_cast<XML_Item*>(userdata)->paramcount++; // how much they are
 }
 
@@ -978,6 +995,7 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
     XStoreParamsData *xstore_data = reinterpret_cast<XStoreParamsData*>(userdata);
+    if (xstore_data->_wp == nullptr) return; // something before already failed
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
@@ -1005,6 +1023,12 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         xstore_data->params->type = XBT_STRING;
         xstore_data->params->data = *xstore_data->_wp - xstore_data->_x;
 
+        if (xstore_data->creator->data+xstore_data->creator->data_size_allocated - *xstore_data->_wp <= (int64_t)strlen(param_value))
+        {
+            LOG_ERROR("[A1207] value of param %s cannot be stored",param_name);
+            xstore_data->_wp = nullptr; // failure
+            return;
+        }
         strcpy(*xstore_data->_wp,param_value);
         (*xstore_data->_wp) += strlen(param_value)+1;
     }
-- 
2.43.0


From 423c4eaeacefad8fba77465f6de87fe194bb8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 039/112] fix: buffer of appended element is always allocated
 and big enough

---
 src/bin_xml_creator.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 3633b2d..282049f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -406,6 +406,8 @@ bool Bin_xml_creator::Make_xb()
     this->data_size_allocated += strlen(src->getFilename());
     // headers, links, types and alignment of small nodes & params are bigger than their source
     this->data_size_allocated += total_node_count*(sizeof(XML_Item)+sizeof(relative_ptr_t)+16) + total_param_count*(sizeof(XML_Param_Description)+16);
+    ASSERT_NO_RET_FALSE(2216,1024 + src->getFileSize()*4LL + total_node_count*(sizeof(XML_Item)+sizeof(relative_ptr_t)+16LL) + total_param_count*(sizeof(XML_Param_Description)+16LL) < 0x7fff0000LL); // too big
+    AA(this->data_size_allocated); // size of file is aligned too
     free(this->data); // from previous run
     this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
 
@@ -531,6 +533,21 @@ bool Bin_xml_creator::Append(void *element)
     }
     int file_align = file_info.st_size & 0xf; // use alignemenet like length of file
 
+// element can be bigger than previously processed document
+    total_node_count = 0;
+    total_param_count = 0;
+    src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    src->updateFileSize();
+    int64_t needed = 1024 + src->getFileSize()*4LL + total_node_count*(sizeof(XML_Item)+sizeof(relative_ptr_t)+16LL) + total_param_count*(sizeof(XML_Param_Description)+16LL);
+    ASSERT_NO_RET_FALSE(2217,needed < 0x7fff0000LL); // too big
+    if (data == nullptr || needed > data_size_allocated)
+    {
+        free(data);
+        data = reinterpret_cast<char *>(malloc(needed));
+        ASSERT_NO_RET_FALSE(2218,data != nullptr);
+        data_size_allocated = needed;
+    }
+
     char *wp = data+file_align;
     AA(wp);
     ASSERT_NO_RET_FALSE(2202,this->WriteNode(&wp,element) != nullptr);
-- 
2.43.0


From 2debc82aafa4d1ccba61b233fb063d0c5dc15954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 040/112] fix: whole string params and values are copied from
 binary sources

---
 src/bin_xml_types.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index de3a410..afb366a 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -439,11 +439,17 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
 {
     int value_size = XBT_Size2(type,size);
     int align_size = XBT_Align(type);
+// real size of value is known from its content
+    if (type == XBT_STRING)
+        value_size = strlen(src)+1;
+    else if (XBT_IS_VARSIZE(type))
+        value_size = sizeof(int32_t) + *reinterpret_cast<const int32_t*>(src);
     if (limit - *_wp < value_size + align_size) 
     {
         LOG(ANSI_RED_BRIGHT "XBT_Copy: type=%s no space (%d) for value (%d+%d)\n",XML_BINARY_TYPE_NAMES[type],(int)(limit - *_wp),(int)value_size,(int)align_size);
         return false; // cannot fit into destination
     }
+    if (type == XBT_SHA1) value_size = 20; // padding is not present in every source
     if (type == XBT_STRING)
         strcpy(*_wp,src);
     else if (align_size == 4)
@@ -465,6 +471,11 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
 */
     }
     *_wp += value_size;
+    if (type == XBT_SHA1)
+    {
+        memset(*_wp,0,4); // padding to size of hash192_t
+        *_wp += 4;
+    }
     return true; // OK
 }
 
-- 
2.43.0


From 07c6c70f2f6372ca68eee7d559207bc12f3c45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 041/112] fix: symbol missing in symbol table fails conversion,
 built-in symbols are never missing

---
 src/bin_xml_creator.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 282049f..a607f1c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -872,6 +872,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 //std::cout << /*(void*)(X)*/ (_x-data) << " " << element->name;
 
     X->name = Find(src->getNodeName(element),SYMBOL_TABLE_NODES);
+    ASSERT_NO_RET_NULL(2219,X->name != XTNR_NULL || src->getNodeName(element) == nullptr); // symbol is not registered
 
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
@@ -959,6 +960,12 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 //    int name_id = 
         xstore_data->params->name = 
         xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (xstore_data->params->name == XPNR_NULL && param_name != nullptr)
+    {
+        LOG_ERROR("[A1208] symbol of param %s is not registered",param_name);
+        xstore_data->_wp = nullptr; // failure
+        return;
+    }
 
     if (param_value == nullptr || type == XBT_NULL)
     {
@@ -1016,6 +1023,12 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (name_id == XPNR_NULL && param_name != nullptr)
+    {
+        LOG_ERROR("[A1209] symbol of param %s is not registered",param_name);
+        xstore_data->_wp = nullptr; // failure
+        return;
+    }
 
     if (param_value == nullptr || *param_value == '\0')
     {
@@ -1343,6 +1356,16 @@ int Bin_xml_creator::Find(const char *symbol,const int t)
         else
             B = M+1;
     }
+// built-in symbols need no registration
+    if (t == SYMBOL_TABLE_NODES)
+    {
+        if (strcmp(symbol,XTNR2str(XTNR_TRANSACTION)) == 0) return XTNR_TRANSACTION;
+    }
+    else
+    {
+        for(int id = XPNR_NULL-1;id > XPNR_LAST;id--)
+            if (strcmp(symbol,XPNR2str(id)) == 0) return id;
+    }
     return -1; // not found
 }
 
-- 
2.43.0


From b51ebe84787090d829039d15e47aaf5e813c2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 042/112] fix: built-in params are shown with their own names,
 unnamed nodes can be converted again

---
 include/binary_xml/bin_xml.h |  4 +++-
 src/bin_xml_creator.cpp      | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 046cd15..39d5528 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -78,6 +78,8 @@ enum XML_Param_Names
 // </meta_root>
 //-------------------------------------------------------------------------------------------------
 
+const char *XPNR2str(int16_t name);
+
 class XML_Param_Description;
 class XB_reader;
 class XML_Item;
@@ -206,7 +208,7 @@ public:
     bool Finalize();
 
     inline const char *getNodeName(tag_name_id_t name_id) const     { return tag_symbols.getSymbol(name_id);}
-    inline const char *getParamName(tag_name_id_t name_id) const    { return param_symbols.getSymbol(name_id);}
+    inline const char *getParamName(tag_name_id_t name_id) const    { return name_id < 0 ? XPNR2str(name_id) : param_symbols.getSymbol(name_id);}
     inline const char *getFilename() const                          { return filename;}
     inline tag_name_id_t getNodeID(const char *name) const          { return static_cast<tag_name_id_t>(tag_symbols.getID(name));}
     inline param_name_id_t getParamID(const char *name) const       { return static_cast<param_name_id_t>(param_symbols.getID(name));}
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a607f1c..f560fa5 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -859,6 +859,12 @@ const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_
     return _x;
 }
 
+static bool IsUnnamed(const char *name)
+// XTNR_NULL and XPNR_NULL is correct result for this name
+{
+    return name == nullptr || strcmp(name,XTNR2str(XTNR_NULL)) == 0;
+}
+
 const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 {
     AA(*_wp); //===============================================================================
@@ -872,7 +878,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 //std::cout << /*(void*)(X)*/ (_x-data) << " " << element->name;
 
     X->name = Find(src->getNodeName(element),SYMBOL_TABLE_NODES);
-    ASSERT_NO_RET_NULL(2219,X->name != XTNR_NULL || src->getNodeName(element) == nullptr); // symbol is not registered
+    ASSERT_NO_RET_NULL(2219,X->name != XTNR_NULL || IsUnnamed(src->getNodeName(element))); // symbol is not registered
 
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
@@ -960,7 +966,7 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 //    int name_id = 
         xstore_data->params->name = 
         xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
-    if (xstore_data->params->name == XPNR_NULL && param_name != nullptr)
+    if (xstore_data->params->name == XPNR_NULL && !IsUnnamed(param_name))
     {
         LOG_ERROR("[A1208] symbol of param %s is not registered",param_name);
         xstore_data->_wp = nullptr; // failure
@@ -1023,7 +1029,7 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
-    if (name_id == XPNR_NULL && param_name != nullptr)
+    if (name_id == XPNR_NULL && !IsUnnamed(param_name))
     {
         LOG_ERROR("[A1209] symbol of param %s is not registered",param_name);
         xstore_data->_wp = nullptr; // failure
-- 
2.43.0


From 511f45ee3cb3c37b693596cc200b0b524a93a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 043/112] fix: built-in transaction tag can be created

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e477be0..727f753 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1484,6 +1484,7 @@ XML_Binary_Type BW_pool::getTagType(int16_t id)
             case XTNR_PAYLOAD: return XBT_NULL;                     // payload = content of XML file
             case XTNR_REFERENCE: return XBT_UNKNOWN;                // this is reference tag!! - it is exact copy of other tag
             case XTNR_PROCESSED: return XBT_UNKNOWN;                // this tag was processed and in .reference field is it's new address
+            case XTNR_TRANSACTION: return XBT_NULL;                 // envelope of changes
             case XTNR_ET_TECERA: return XBT_NULL;                   // this tag is last tag in file and is placeholder for other tags appended to the file later without modification of core
             default:
                 break;
-- 
2.43.0


From 988cdf29de85827041a71886318cc37c7a896b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 044/112] fix: node or param missing in result fails conversion
 to xbw

---
 src/bin_xml_creator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index f560fa5..99e8728 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -619,6 +619,7 @@ struct MakingXBW_1node
     BW_element      *dst_bw_element;
     const char      *param_name;
     const char      *param_value;
+    bool            failed; // some param or child was not stored
 };
 
 bool Bin_xml_creator::Make_xbw()
@@ -674,9 +675,11 @@ bool Bin_xml_creator::Make_xbw()
     node_info.dst_bw_element = nullptr;
     node_info.param_name = nullptr;
     node_info.param_value = nullptr;
+    node_info.failed = false;
 
     XStore2XBWEvent(root,&node_info);
     ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr);
+    ASSERT_NO_RET_FALSE(2220,!node_info.failed);
     W.setRoot(node_info.dst_bw_element);
 //typedef void (*OnElement_t)(void *element,void *userdata);
 
@@ -1217,6 +1220,9 @@ void Bin_xml_creator::XBWStoreParamsEvent(const char *param_name,const char *par
         //printf("\t%d.add(%d)\n",node_info->dst_bw_element->offset,subnode_info.dst_bw_element->offset);
         node_info->dst_bw_element->add(subnode_info.dst_bw_element);
     }
+    else
+        node_info->failed = true;
+    if (subnode_info.failed) node_info->failed = true;
 }
 
 void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
@@ -1236,6 +1242,9 @@ void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
         //printf("\t%d.add(%d)\n",node_info->dst_bw_element->offset,subnode_info.dst_bw_element->offset);
         node_info->dst_bw_element->add(subnode_info.dst_bw_element);
     }
+    else
+        node_info->failed = true;
+    if (subnode_info.failed) node_info->failed = true;
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 8d51b72564405cc13ac64e400e51e7e5c03a025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 045/112] fix: unsupported source is reported and does not
 crash

---
 src/bin_xml_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 99e8728..9580e43 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -367,6 +367,7 @@ Bin_xml_creator::~Bin_xml_creator()
 
 bool Bin_xml_creator::DoAll()
 {
+    ASSERT_NO_RET_FALSE(2221,src != nullptr); // no plugin for this source
     ASSERT_NO_RET_FALSE(2049,dst != nullptr);
     int dst_len = strlen(dst);
     ASSERT_NO_RET_FALSE(2050,dst_len > 0);
-- 
2.43.0


From 7796ef3b7808ed95ea49bf66a60563c16172370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 046/112] fix: unsupported source is reported by every
 conversion

---
 src/bin_xml_creator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 9580e43..ef15f45 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -367,7 +367,6 @@ Bin_xml_creator::~Bin_xml_creator()
 
 bool Bin_xml_creator::DoAll()
 {
-    ASSERT_NO_RET_FALSE(2221,src != nullptr); // no plugin for this source
     ASSERT_NO_RET_FALSE(2049,dst != nullptr);
     int dst_len = strlen(dst);
     ASSERT_NO_RET_FALSE(2050,dst_len > 0);
@@ -379,6 +378,7 @@ bool Bin_xml_creator::DoAll()
 
 bool Bin_xml_creator::Make_xb()
 {
+    ASSERT_NO_RET_FALSE(2221,src != nullptr); // no plugin for this source
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
@@ -625,6 +625,7 @@ struct MakingXBW_1node
 
 bool Bin_xml_creator::Make_xbw()
 {
+    ASSERT_NO_RET_FALSE(2221,src != nullptr); // no plugin for this source
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
-- 
2.43.0


From 236d8e0f506c51a0757e8db61ee2f713c232b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 047/112] fix: json objects with missing or superfluous values
 are rejected

---
 src/bin_json_plugin.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index e52143b..2aec6d1 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -141,6 +141,14 @@ bool Bin_json_plugin::Initialize()
             std::cerr << "Token size = " << sizeof(jsmntok_t) << "\n";
 			_exit(1); // ERROR
         }
+		// member of object is name with exactly one value, only members have values
+		const bool is_value = tokens[i].type == JSMN_STRING || tokens[i].type == JSMN_PRIMITIVE;
+		const bool is_member = tokens[i].parent >= 0 && tokens[tokens[i].parent].type == JSMN_OBJECT;
+		if (is_value ? tokens[i].size != (is_member ? 1 : 0) : is_member)
+		{
+			std::cerr << ANSI_RED_BRIGHT "Error: malformed json at element " << i << ANSI_RESET_LF;
+			return false;
+		}
     }
 
 	// 4. json filling total_size
-- 
2.43.0


From e4db5e197a5ee4357c27460275b6a6fbcadc1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 048/112] fix: items of array with empty name

---
 src/bin_json_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 2aec6d1..1429310 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -205,7 +205,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			strncpy(last_str,source + P2->start,len);
 			
 			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			if (len > 0 && last_str[len-1] == 's')
 			{
 				last_str[len-1] = '\0';
 			}
-- 
2.43.0


From c7e0d8d84358d7248333889ac2aaab5fed1671ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 049/112] fix: type of json values is not detected from their
 names

---
 include/binary_xml/bin_json_plugin.h |  1 +
 src/bin_json_plugin.cpp              | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..367d8db 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -14,6 +14,7 @@ protected:
 	int		num_tokens1;
 	int		max_str_len;
 	char		*last_str;
+	char		*last_value;
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 1429310..d6914e8 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -62,6 +62,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->tokens = nullptr;
 	this->max_str_len = 0;
 	this->last_str = nullptr;
+	this->last_value = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -76,6 +77,8 @@ Bin_json_plugin::~Bin_json_plugin()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	delete [] last_value;
+	last_value = nullptr;
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
@@ -171,6 +174,7 @@ bool Bin_json_plugin::Initialize()
 
 	last_str = new char[max_str_len+1+4];	// possible adding "Item"
 	last_str[max_str_len] = '\0';
+	last_value = new char[max_str_len+1];	// name and value of the same node are used together
 
 	return true;
 }
@@ -260,9 +264,9 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_value,source + X->start,X->end - X->start);
+	last_value[X->end - X->start] = 0;
+	return last_value;
 }
 
 void Bin_json_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
-- 
2.43.0


From cd67dc7b009b6931fcec5b6c8634993fb5fc2c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 050/112] fix: bytes used for alignment are always the same in
 created file

---
 src/bin_xml_creator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index ef15f45..1d2397c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -418,6 +418,7 @@ bool Bin_xml_creator::Make_xb()
         std::cerr << "error: " << strerror(errno) << " while malloc(" << src->getFileSize()*2 << ")\n";
         return false;
     }
+    memset(this->data,0,data_size_allocated); // bytes used for alignment are stored too
     this->dst_file_size = FillData();
     ASSERT_NO_RET_FALSE(2201,this->dst_file_size > 0);
 #ifndef NDEBUG
@@ -548,6 +549,7 @@ bool Bin_xml_creator::Append(void *element)
         ASSERT_NO_RET_FALSE(2218,data != nullptr);
         data_size_allocated = needed;
     }
+    memset(data,0,data_size_allocated); // bytes used for alignment are stored too
 
     char *wp = data+file_align;
     AA(wp);
-- 
2.43.0


From 7bac9b7e827e46204f8def53b7359bb40e36a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 051/112] fix: missing memory for a symbol is reported

---
 src/bin_xml_creator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 1d2397c..bc44a03 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1281,6 +1281,9 @@ int Bin_xml_creator::FindOrAddTyped(const char *symbol,const int t,XML_Binary_Ty
         return -1; // failed
     }
 // not found --> add
+    char *symbol_copy = reinterpret_cast<char *>(malloc(strlen(symbol)+1));
+    ASSERT_NO_RET_N1(2222,symbol_copy != nullptr);
+    strcpy(symbol_copy,symbol);
     int P = E+1;
     assert(P >= 0 && P <= symbol_count[t]);
     if (symbol_count[t]-P > 0)
@@ -1290,8 +1293,6 @@ int Bin_xml_creator::FindOrAddTyped(const char *symbol,const int t,XML_Binary_Ty
     }
     symbol_count[t]++;
 
-    char *symbol_copy = reinterpret_cast<char *>(malloc(strlen(symbol)+1));
-    strcpy(symbol_copy,symbol);
     symbol_table[t][P] = symbol_copy;
     symbol_table_types[t][P] = static_cast<XML_Binary_Type_Stored>(type);
 
@@ -1334,6 +1335,9 @@ int Bin_xml_creator::FindOrAdd(const char *symbol,const int t,const char *value)
         return -1; // failed
     }
 // not found --> add
+    char *symbol_copy = reinterpret_cast<char *>(malloc(strlen(symbol)+1));
+    ASSERT_NO_RET_N1(2222,symbol_copy != nullptr);
+    strcpy(symbol_copy,symbol);
     int P = E+1;
     assert(P >= 0 && P <= symbol_count[t]);
     if (symbol_count[t]-P > 0)
@@ -1343,8 +1347,6 @@ int Bin_xml_creator::FindOrAdd(const char *symbol,const int t,const char *value)
     }
     symbol_count[t]++;
 
-    char *symbol_copy = reinterpret_cast<char *>(malloc(strlen(symbol)+1));
-    strcpy(symbol_copy,symbol);
     symbol_table[t][P] = symbol_copy;
     symbol_table_types[t][P] = static_cast<XML_Binary_Type_Stored>(XBT_Detect(value));
 
-- 
2.43.0


From 8211840779f5c362fb3a026b2531734c4145362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 052/112] fix: bytes between packed nodes are always the same

---
 src/bin_xml_packer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 26f1479..1f71b19 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -89,6 +89,7 @@ int32_t Bin_xml_packer::Pack()
     DBG(std::cout << "\n===========================================================\n");
 // now i should recursively copy/repair all
     data2 = new char [dst_file_size]; // reinterpret_cast<char *>(alloca(dst_file_size));
+    memset(data2,0,dst_file_size); // bytes between nodes are stored too
     char *_wp = data2;
 
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(PackNode(&_wp,this->data));
-- 
2.43.0


From e8b8d14b0838ac223c052fadd5e95afa1874e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 053/112] fix: replacing the only element of a list left the
 list linked to the removed element

---
 src/bin_write_plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 727f753..bf5e5d1 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -165,6 +165,7 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
 {
     if (THIS_IS_NULL) return nullptr; // no where to add
     if (old_value == nullptr) return nullptr; // failure
+    if (new_value == nullptr) return nullptr; // nothing to replace with
 
     ASSERT_NO_RET_NULL(2016,new_value->next == new_value->offset);
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
@@ -175,6 +176,8 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
 
     BWE(new_value->next)->prev = new_value->offset;
     BWE(new_value->prev)->next = new_value->offset;
+    if (new_value->next == old_value->offset) // old value was alone in its circle
+        new_value->next = new_value->prev = new_value->offset;
     
     old_value->flags |= BIN_DELETED;
     old_value->next = old_value->prev = old_value->offset;
-- 
2.43.0


From 8f85dfb1b647e8f14084176635a3079442c830f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 054/112] fix: tagSetInt32, tagSetInt64 and tagSetString
 returned the deleted element and crashed when the new one was refused

---
 src/bin_write_plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index bf5e5d1..f22b46c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -790,6 +790,7 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
             replace(target,new_item);
+            target = new_item; // old one is deleted
         }
          
     }
@@ -818,6 +819,7 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
             replace(target,new_item);
+            target = new_item; // old one is deleted
         }
          
     }
@@ -851,6 +853,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         {
             BW_element *new_item = getPool()->tagString(id,value);
             replace(target,new_item);
+            target = new_item; // old one is deleted
         }
          
     }
-- 
2.43.0


From 9aaebe86cdbf51d52b50fb62629fd38692a5ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 055/112] fix: tagSetTime wrote 8 bytes into a 4 byte value

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index f22b46c..ac26715 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -867,8 +867,9 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        ASSERT_NO_RET_NULL(2224,target->value_type == XBT_UNIX_TIME);
+        uint32_t *tm = reinterpret_cast<uint32_t*>(target+1); // stored in 4 bytes
+        *tm = (uint32_t)value;
     }
     else
     {
-- 
2.43.0


From ad398a5398aac68767925981cf7e62bc509fb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 056/112] fix: creating elements and attributes from null
 values crashed

---
 src/bin_write_plugin.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ac26715..ae67e0f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -517,6 +517,7 @@ BW_element*     BW_element::attrDouble(int16_t id,double value)
 BW_element*     BW_element::attrGUID(int16_t id,const char *value)
 {
     if (THIS_IS_NULL) return nullptr;
+    if (value == nullptr) return this; // adding null value is as nothing is added
 
     BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = pool->getAttrType(id);
@@ -537,6 +538,7 @@ BW_element*     BW_element::attrGUID(int16_t id,const char *value)
 BW_element*     BW_element::attrSHA1(int16_t id,const char *value)
 {
     if (THIS_IS_NULL) return nullptr;
+    if (value == nullptr) return this; // adding null value is as nothing is added
 
     BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = pool->getAttrType(id);
@@ -845,7 +847,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
-                strcpy(dst,value); // shorter or in the same allocation size
+                strcpy(dst,value != nullptr ? value : ""); // shorter or in the same allocation size
             else
                 to_replace = true;
         }
@@ -1763,7 +1765,7 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
-    strcpy(reinterpret_cast<char*>(result+1),value);
+    if (value != nullptr) strcpy(reinterpret_cast<char*>(result+1),value); // else stays empty
     return result;
 }
 
@@ -1789,7 +1791,7 @@ BW_element* BW_pool::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(this,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,value,20);
+    if (value != nullptr) memcpy(result+1,value,20); // else stays zero
     return result;
 }
 
@@ -2398,6 +2400,7 @@ BW_element* BW_plugin::tag(int16_t id)
 
 BW_element* BW_plugin::tagStr(int16_t id,const char *value)
 {
+    if (value == nullptr) value = ""; // empty string
     XML_Binary_Type tag_type = pool->getTagType(id);
     ASSERT_NO_RET_NULL(1127,tag_type == XBT_STRING || tag_type == XBT_VARIANT || tag_type == XBT_BLOB_STRING);
     if (tag_type == XBT_VARIANT) tag_type = XBT_STRING;
@@ -2543,7 +2546,7 @@ BW_element* BW_plugin::tagGUID(int16_t id,GUID_t *guid)
     
     result->init(pool,id,XBT_GUID,BIN_WRITE_ELEMENT_FLAG);
    
-    memcpy(result+1,guid,sizeof(*guid)); 
+    if (guid != nullptr) memcpy(result+1,guid,sizeof(*guid)); // else stays zero
     return result;
 }
 
@@ -2559,7 +2562,7 @@ BW_element* BW_plugin::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(pool,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
    
-    memcpy(result+1,value,20); 
+    if (value != nullptr) memcpy(result+1,value,20); // else stays zero
     return result;
 }
 
-- 
2.43.0


From f54365ba627c5ecedcd8fc410942bbb0fb7874f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 057/112] fix: attrSHA1 read 24 bytes of a 20 byte hash

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ae67e0f..faeb7cf 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -549,7 +549,7 @@ BW_element*     BW_element::attrSHA1(int16_t id,const char *value)
     attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
 
     char *dst = reinterpret_cast<char*>(attr+1); // just after this element
-    memcpy(dst,value,XBT_Size2(attr_type,0));
+    memcpy(dst,value,20); // stored size is rounded up
 
     add(attr);
 
-- 
2.43.0


From cd36dd72445264670c721d0181d3e4fed49a1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 058/112] fix: setStr crashed with null, lost children and
 turned a longer attribute into an element

---
 src/bin_write_plugin.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index faeb7cf..217948b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1044,6 +1044,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
+    if (value == nullptr) value = ""; // empty string
     if (strcmp(data_ref.content,value) == 0) return false; // no change
 
     int value_len = value != nullptr ? strlen(value) : 0;
@@ -1063,9 +1064,15 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
 
         parent->remove(this);
 
+        if ((flags & BIN_WRITE_ELEMENT_FLAG) == 0) // attribute
+            return parent->attrStr(identification,value) != nullptr;
+
         BW_element *new_value; 
         parent->add(new_value = W->tagStr(identification,value));
+        ASSERT_NO_RET_FALSE(2225,new_value != nullptr);
 
+        new_value->first_child = first_child;
+        first_child = 0;
         new_value->first_attribute = _first_attribute;
     }
     return true;
-- 
2.43.0


From 969e55c07bf30d08b4ea04f4023a92274e3dd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 059/112] fix: attrData and attrCopy failed when the pool had
 to grow

---
 src/bin_write_plugin.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 217948b..bd48609 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -643,6 +643,13 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
         int target_data_size = p - buffer;
 
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+target_data_size));
+        if (attr == nullptr) // need makeSpace
+        {
+            BW_plugin *plugin = plugins.getPlugin(pool);
+            ASSERT_NO_RET_NULL(2226,plugin != nullptr);
+            ASSERT_NO_RET_NULL(2227,plugin->makeSpace(16+sizeof(BW_element)+target_data_size)); // with alignment
+            attr = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+target_data_size));
+        }
         ASSERT_NO_RET_NULL(1996,attr != nullptr);
 
         attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
@@ -656,6 +663,13 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
         ASSERT_NO_RET_NULL(1992,attr_type == data.type);
 
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+        if (attr == nullptr) // need makeSpace
+        {
+            BW_plugin *plugin = plugins.getPlugin(pool);
+            ASSERT_NO_RET_NULL(2228,plugin != nullptr);
+            ASSERT_NO_RET_NULL(2229,plugin->makeSpace(16+sizeof(BW_element)+data.size)); // with alignment
+            attr = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+        }
         ASSERT_NO_RET_NULL(1993,attr != nullptr);
 
         attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
-- 
2.43.0


From 0bd67a01b2364418d31ca6b25189a7e4d293c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 060/112] fix: listing the attributes of an element without
 attributes walked over the pool header

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index bd48609..85e49af 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2891,6 +2891,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
-- 
2.43.0


From 18541a2c6b9754bb0d24addfbc2e901222f2bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 061/112] fix: huge blocks overflowed the limit of the pool and
 were handed out

---
 src/bin_write_plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 85e49af..7b5c45c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1667,6 +1667,7 @@ const char *BW_pool::getDocTypeName()
 char*  BW_pool::allocate(int size)
 {
     if (size <= 0) return 0;
+    ASSERT_NO_RET_0(2230,size <= allocator_limit - allocator); // sum can overflow
     ROUND32UP(size);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
     ASSERT_NO_RET_0(1080,allocator + size <= allocator_limit);
@@ -1684,6 +1685,7 @@ char*           BW_pool::allocate8(int size)        // 64 bit aligned value
 {
     if (size <= 0) return 0;
     ROUND64UP(allocator);
+    ASSERT_NO_RET_0(2231,size <= allocator_limit - allocator); // sum can overflow
     ROUND64UP(size);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
     ASSERT_NO_RET_0(1942,allocator + size <= allocator_limit);
@@ -2025,6 +2027,7 @@ bool BW_plugin::CheckExistingFile(int file_size)
 
 bool BW_plugin::makeSpace(int size)
 {
+    ASSERT_NO_RET_FALSE(2232,size >= 0 && size <= (int)pool->mmap_size - pool->allocator); // sum can overflow
     int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
     if (new_size <= (int)pool->file_size) return true; // no grow - ok
-- 
2.43.0


From 301bcf86dfe7f553373c0f2bb4dd5e0991c34235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 062/112] fix: unregistering a plugin moved only few bytes of
 the following ones

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7b5c45c..4025bde 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -3002,7 +3002,7 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            memmove(plugins+i,plugins+i+1,sizeof(*plugins)*(--plugins_count - i));
             return true;
         }
     return false;
-- 
2.43.0


From 1cc92aeda87587ed09aa1cbff6d6baee2047b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 063/112] fix: symbols with ID above 127 were lost

---
 src/bin_write_plugin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 4025bde..face6e8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1276,7 +1276,7 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
+            id = static_cast<uint8_t>(*(p++)); // char is signed
             id |= *(p++) << 8;
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
@@ -1348,7 +1348,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = static_cast<uint8_t>(p[0]) | (p[1] << 8);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1386,7 +1386,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = static_cast<uint8_t>(p[0]) | (p[1] << 8);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1430,7 +1430,7 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
+            id = static_cast<uint8_t>(*(p++)); // char is signed
             id |= *(p++) << 8;
             if (id != prev_id+1) // don't go to other table
             {
-- 
2.43.0


From 692347b975870146587cdae3097c78817312246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 064/112] fix: symbols registered with ID out of sequence were
 lost, a failed registration stayed counted

---
 src/bin_write_plugin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index face6e8..e7d6e28 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2072,13 +2072,14 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->tags.max_id,id);
+    ASSERT_NO_RET_FALSE(2234,id == pool->tags.max_id+1); // table is a sequence of IDs, other records would be lost
     int len = strlen(name);
 
 // allocation
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
     char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1121,dst != 0);
+    MAXIMIZE(pool->tags.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2122,12 +2123,13 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->params.names_offset == 0)
         pool->params.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->params.max_id,id);
+    ASSERT_NO_RET_FALSE(2235,id == pool->params.max_id+1); // table is a sequence of IDs, other records would be lost
     int len = strlen(name);
 
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1122,dst != 0);
+    MAXIMIZE(pool->params.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
-- 
2.43.0


From 51edd65060bf7ee454c715c5791b9f2c75d80e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 065/112] fix: registering more names than IDs and registering
 a missing name

---
 src/bin_write_plugin.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e7d6e28..c1bfc26 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2143,6 +2143,9 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
 
 XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
 {
+    ASSERT_NO_RET_(2236,name != nullptr,XTNR_NULL);
+    ASSERT_NO_RET_(2237,type >= XBT_NULL && type < XBT_LAST,XTNR_NULL);
+
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
@@ -2168,6 +2171,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
     int len = strlen(name);
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_(1972,dst != 0,XTNR_NULL);
+    ASSERT_NO_RET_(2238,pool->tags.max_id < INT16_MAX,XTNR_NULL); // ID is int16_t
     id = ++pool->tags.max_id;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
@@ -2215,6 +2219,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_(1973,dst != 0,XPNR_NULL);
+    ASSERT_NO_RET_(2239,pool->params.max_id < INT16_MAX,XPNR_NULL); // ID is int16_t
     id = ++pool->params.max_id;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
-- 
2.43.0


From 408a3cde3f6b3ee5a086437dd9d574f06b6f338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 066/112] fix: a failed check of a symbol read before the table
 of type names

---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c1bfc26..cc17355 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2058,7 +2058,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         bool ok3 = (type_stored == type);
         
         if (ok1 && ok2 && ok3) return true; // OK
-        LOG_ERROR("registerTag(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored,XML_BINARY_TYPE_NAMES[type_stored]);
+        LOG_ERROR("registerTag(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored,XBT2STR(type_stored));
         check_failures++; 
         return false;
     }
@@ -2109,7 +2109,7 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
         bool ok3 = (type_stored == type);
         
         if (ok1 && ok2 && ok3) return true; // OK
-        LOG_ERROR("registerAttr(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored,XML_BINARY_TYPE_NAMES[type_stored]);
+        LOG_ERROR("registerAttr(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored,XBT2STR(type_stored));
         check_failures++; 
         return false;
     }
-- 
2.43.0


From bd150af94e1ad7f6363120116ddadb134b3a4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 067/112] fix: opening a file which is not a pool crashed in
 its error message

---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index cc17355..4be8725 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1646,7 +1646,8 @@ const char *BW_pool::getDocTypeName()
 //    {
 //        return doc_type_name;
 //    }
-    if (root > getPoolSize() && root < allocator)
+    BW_plugin *plugin = plugins.getPlugin(this);
+    if ((plugin == nullptr || plugin->isInitialized()) && root > getPoolSize() && root < allocator) // not checked file has no root
     {
         BW_element *root = BWE(this->root);   
         ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
@@ -1655,7 +1656,6 @@ const char *BW_pool::getDocTypeName()
     }
 // OK, no root name - so some early stage
    
-    BW_plugin *plugin = plugins.getPlugin(this);
     if (plugin == nullptr) return "(no plugin for pool)";
     const char *filename = plugin->getFilename();
     if (filename == nullptr) return "(no filename in plugin)";
-- 
2.43.0


From c2d2567a06733ab411abbcf044bf1796c5b712f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 068/112] fix: opening a damaged pool did not check ranges of
 its root and symbol tables

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..2e5f36b 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -89,6 +89,7 @@ public:
     const char      *getName(BW_pool *pool,int search_id);
     XML_Binary_Type_Stored *getType(BW_pool *pool,int search_id);
     int32_t         getNamesSize(BW_pool *pool);
+    bool            checkRange(BW_pool *pool);
     bool            check(BW_pool *pool);
     bool            Open(BW_pool *pool);
 };
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 4be8725..3eb7c09 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1430,6 +1430,12 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
+            if (p_limit - p < (int)sizeof(int16_t)+(int)sizeof(XML_Binary_Type_Stored)+1) // names must not exceed used space
+            {
+                LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
+                max_id = prev_id;
+                break;
+            }
             id = static_cast<uint8_t>(*(p++)); // char is signed
             id |= *(p++) << 8;
             if (id != prev_id+1) // don't go to other table
@@ -1449,6 +1455,16 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     return p - start_p;
 }
 
+bool BW_symbol_table_16B::checkRange(BW_pool *pool)
+// names and index must be inside of used space
+{
+    ASSERT_NO_RET_FALSE(2243,max_id >= -1 && max_id <= INT16_MAX);
+    if (max_id < 0) return true; // empty table
+    ASSERT_NO_RET_FALSE(2244,names_offset >= (int)sizeof(*pool) && names_offset <= pool->allocator);
+    ASSERT_NO_RET_FALSE(2245,index == 0 || (index >= (int)sizeof(*pool) && index <= pool->allocator - (max_id+1) * (int)sizeof(BW_offset_t)));
+    return true;
+}
+
 bool BW_symbol_table_16B::check(BW_pool *pool)
 {
     if (index == 0) return true; // OK, no index is OK
@@ -2002,6 +2018,10 @@ bool BW_plugin::CheckExistingFile(int file_size)
     ASSERT_NO_RET_FALSE(1945,pool->allocator_limit == (int)pool->file_size);
     ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
     ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
+// root and symbol tables must be inside of used space
+    ASSERT_NO_RET_FALSE(2240,pool->root == 0 || (pool->root >= (int)sizeof(*pool) && pool->root <= pool->allocator - (int)sizeof(BW_element)));
+    ASSERT_NO_RET_FALSE(2241,pool->tags.checkRange(pool));
+    ASSERT_NO_RET_FALSE(2242,pool->params.checkRange(pool));
 
     this->check_only = true;
     this->check_failures = 0;
-- 
2.43.0


From 9de879946992d6d12d5872923c17925ae4f413e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 069/112] fix: pool smaller than its initial file was written
 behind the mapped memory

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3eb7c09..e586888 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1983,6 +1983,7 @@ bool BW_plugin::InitEmptyFile()
 {
 // setFileSize?? --> this function can be called at differrent situations
     ASSERT_NO_RET_FALSE(1104,fd >= 0);
+    ASSERT_NO_RET_FALSE(2246,max_pool_size >= BW2_INITIAL_FILE_SIZE); // mapped memory must not be smaller than file
     if (ftruncate(fd,BW2_INITIAL_FILE_SIZE) < 0)
     {
         ERRNO_SHOW(1105,"ftruncate",filename);
-- 
2.43.0


From 7a0d27cb62ca2c15653e67c166cb010e11e40104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 070/112] fix: clearing failed when symbol tables were extended
 after elements

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e586888..baff5e0 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2393,8 +2393,10 @@ bool BW_plugin::Clear()
     // -------[PARAMS----][TAGS------------]
     // Yes - when between old params and new TAGS is not enough space for growth TAGS
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
+    if (params_size > 0 && ((tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
+        || (tags_src != tags_dst && params_src < tags_dst + tags_size && params_src + params_size > tags_dst))) // tags would overwrite params
     { // copy params to new place
+        ASSERT_NO_RET_FALSE(2247,makeSpace(params_size));
         char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
         ASSERT_NO_RET_FALSE(2103,params2_src);
         memcpy(params2_src,params_src,params_size);
@@ -2407,7 +2409,6 @@ bool BW_plugin::Clear()
     }
     if (params_src != params_dst)
     {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
         memmove(params_dst,params_src,params_size);
     }
     pool->tags.names_offset = sizeof(*pool);
-- 
2.43.0


From 21f4a4331c9220918f4a43da635f3fdb3813f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 071/112] fix: incomplete append left a part of the element in
 the file

---
 src/bin_xml_creator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index bc44a03..b7b5735 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -560,6 +560,8 @@ bool Bin_xml_creator::Append(void *element)
     if (written != size)
     {
             std::cerr << "error: " << strerror(errno) << " cannot append " << size << "B\n";
+            if (written > 0 && ftruncate(dst_file,file_info.st_size) != 0) // incomplete element would damage all following ones
+                ERRNO_SHOW(2248,"ftruncate",dst);
             return false;
     }
     
-- 
2.43.0


From b2c807f503df00e0e2a2578cde75e88aecc18db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 072/112] fix: failed allocation of the symbol tables crashed
 conversion

---
 src/bin_xml_creator.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index b7b5735..fddcedf 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -390,7 +390,7 @@ bool Bin_xml_creator::Make_xb()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
-    CopySymbolTable() || MakeSymbolTable();
+    ASSERT_NO_RET_FALSE(2249,CopySymbolTable() || MakeSymbolTable()); // no memory for symbols
     // 2. show stats---------------------------------
 
     DBG(std::cout << "total elements: " << total_node_count << "\n");
@@ -504,10 +504,26 @@ bool Bin_xml_creator::MakeSymbolTable()
 
         int size1 = sizeof(char*)*symbol_count[t];
         int size2 = sizeof(XML_Binary_Type_Stored)*symbol_count[t];
-        this->symbol_table[t] = reinterpret_cast<const char **>(malloc(size1));
+        const char **new_table = reinterpret_cast<const char **>(malloc(size1+1)); // +1 - empty table is not nullptr
+        XML_Binary_Type_Stored *new_types = reinterpret_cast<XML_Binary_Type_Stored*>(malloc(size2+1));
+        if (new_table == nullptr || new_types == nullptr)
+        {
+            free(new_table);
+            free(new_types);
+            for(int t2 = t;t2 < SYMBOL_TABLES_COUNT;t2++) // tables on stack cannot be kept
+            {
+                for(int i = 0;i < symbol_count[t2];i++)
+                    free((void*)symbol_table[t2][i]);
+                this->symbol_table[t2] = nullptr;
+                this->symbol_table_types[t2] = nullptr;
+                this->symbol_count[t2] = 0;
+            }
+            return false;
+        }
+        this->symbol_table[t] = new_table;
         memcpy(this->symbol_table[t],table_backup,size1);
 
-        this->symbol_table_types[t] = reinterpret_cast<XML_Binary_Type_Stored*>(malloc(size2));
+        this->symbol_table_types[t] = new_types;
         memcpy(this->symbol_table_types[t],table_types_backup,size2);
     }
     return true;
@@ -641,7 +657,7 @@ bool Bin_xml_creator::Make_xbw()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
-    CopySymbolTable() || MakeSymbolTable();
+    ASSERT_NO_RET_FALSE(2249,CopySymbolTable() || MakeSymbolTable()); // no memory for symbols
     // 2. show stats---------------------------------
     // I have completed 2x2 arrays
     //const char              **symbol_table[SYMBOL_TABLES_COUNT];
-- 
2.43.0


From 576c24ab8d580ec2c35f0ffc1ad83e29c1a26826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 073/112] fix: 64-bit attributes are read at their stored
 place, not in the reference

---
 src/bin_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 3b2ce2a..0c058b4 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -177,7 +177,7 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(reinterpret_cast<const char *>(X)+data); // stored out of line
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
-- 
2.43.0


From 4e4a594dcbc0a3f227e14a5319b2ec154c78527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 074/112] fix: getIntPtr converts the text of its own element
 in every call

---
 src/bin_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 0c058b4..3427584 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -482,7 +482,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p); // not only in the first call
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From 8daa978e0bd93782bf98cffed08832c64e6b46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 075/112] fix: setting a longer text keeps the element when
 there is no space and its place among siblings

---
 src/bin_write_plugin.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index baff5e0..fb59746 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1072,19 +1072,22 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     }
     else // must reallocate and it is not so easy
     {
-        // remove and add
-        BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
-
-        parent->remove(this);
-
+        // add and remove - this element must stay when there is no space for the new one
         if ((flags & BIN_WRITE_ELEMENT_FLAG) == 0) // attribute
-            return parent->attrStr(identification,value) != nullptr;
+        {
+            if (parent->attrStr(identification,value) == nullptr) return false;
+            parent->remove(this);
+            return true;
+        }
 
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
+        BW_element *new_value = W->tagStr(identification,value);
         ASSERT_NO_RET_FALSE(2225,new_value != nullptr);
 
+        BW_offset_t _first_attribute = first_attribute;
+        first_attribute = 0; // disconnect children
+
+        parent->replace(this,new_value); // the order of children is kept
+
         new_value->first_child = first_child;
         first_child = 0;
         new_value->first_attribute = _first_attribute;
-- 
2.43.0


From 7f5c6a39217ef5aa79b8f6ffddf9ddbc7f2ed385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 076/112] fix: allRegistered reports failed checks of existing
 documents without symbol index too

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index fb59746..1a78b2c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2319,6 +2319,7 @@ bool BW_plugin::allRegistered()
 
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
+    if (check_only) return (check_failures == 0); // existing document without index
     return true;
 }
 
-- 
2.43.0


From 1b261029b5e2a4973ae1711d82dafb9cc4c36ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 077/112] fix: text of a BLOB is terminated in an exactly
 fitting buffer

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ecae07d..e2ec8c7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1236,7 +1236,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
+    if (dst_size > 0)
         *dst = 0;
     return dst_base;
 }
-- 
2.43.0


From 2880de97e3ec55a8795507bc57cfc266f89f8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 078/112] fix: dates before 1969 are converted to their day
 number

---
 src/utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index e2ec8c7..c07b953 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -528,6 +528,12 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     return true;
 }
 
+static int FloorDiv(int value,int divisor)
+// years before base of leap year counting are negative
+{
+    return value >= 0 ? value / divisor : -((divisor - 1 - value) / divisor);
+}
+
 bool ScanUnixDate(const char *&p,int32_t &value)
 {
     int year,month,day;
@@ -548,9 +554,9 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     }
 
     value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    value += FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    value -= FloorDiv(year - 1900 - 1,100);
+    value += FloorDiv(year - 1600 - 1,400);
 
     bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
     if (is_leap_year)   
-- 
2.43.0


From d4e8872a81d64bc3dd2d664f5873544ad79ee056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 079/112] fix: hexadecimal lines fit to the smallest allowed
 output buffer

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index afb366a..77d7b99 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1085,7 +1085,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 src  += offset;
 
                 if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
+                ASSERT_NO_RET_N1(2126,(int)size*2+2 <= dst_size);
 
                 Hex2Str(src,size,dst);
 
-- 
2.43.0


From 66e9e041b9c1491274550c3b847dc10983317b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 080/112] fix: 64 bit times before 1970 are printed with
 positive milliseconds

---
 src/bin_xml_types.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 77d7b99..506f259 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1044,11 +1044,17 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
                 time_t tm0 = (time_t)(value/1000);
+                int msec = (int)(value % 1000);
+                if (msec < 0) // before 1970
+                {
+                    msec += 1000;
+                    tm0--;
+                }
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
-- 
2.43.0


From 190d54cc76d1583674cd6a315ca7ed7184176359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 081/112] fix: white spaces and line ends in printed values
 survive reading them back

---
 include/binary_xml/bin_xml_types.h |  2 +-
 src/bin_xml.cpp                    | 11 +++++++----
 src/bin_xml_creator.cpp            |  5 ++++-
 src/bin_xml_types.cpp              |  5 ++++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 11d0a37..86fc487 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -116,7 +116,7 @@ const char     *XBT_ToString(XML_Binary_Type type,const char *data);
 int             XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size);
     
 void            XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os);
-void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os);
+void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute = false);
 
 //-------------------------------------------------------------------------------------------------
 
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 3427584..40a5c83 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -564,11 +564,14 @@ XML_Binary_Data_Ref XML_Item::getData()
     return R;
 }
 
-static void s_WriteEscaped(std::ostream& os,const char *text,int len)
+static void s_WriteEscaped(std::ostream& os,const char *text,int len,bool attribute)
 {
     for(int i = 0;i < len;i++)
         switch (text[i])
         {
+            case '\r': os << "&#13;"; break; // parsers change line ends
+            case '\n': if (attribute) os << "&#10;"; else os << text[i]; break;  // and white spaces in attributes
+            case '\t': if (attribute) os << "&#9;"; else os << text[i]; break;
             case '<': os << "&lt;"; break;
             case '>': os << "&gt;"; break;
             case '&': os << "&amp;"; break;
@@ -599,7 +602,7 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         {
             int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
             if (len == 0) break;
-            s_WriteEscaped(os,buffer,len);
+            s_WriteEscaped(os,buffer,len,true);
         }
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
@@ -633,7 +636,7 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         {
             int len = getStringChunk(offset,buffer,sizeof(buffer));
             if (len == 0) break;
-            s_WriteEscaped(os,buffer,len);
+            s_WriteEscaped(os,buffer,len,false);
         }
         os << "\n";
         TAB;os << "</" << R.getNodeName(name) << ">\n";
@@ -648,7 +651,7 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         {
                 os << ">";
                 for(;len > 0;len = getStringChunk(offset,buffer,sizeof(buffer)))
-                    s_WriteEscaped(os,buffer,len);
+                    s_WriteEscaped(os,buffer,len,false);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index fddcedf..278bb99 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -163,7 +163,7 @@ void Bin_src_plugin::s_OnBinParam2Stream(const char *param_name,int param_id,XML
 
     CTX->os << " " << param_name << "=\"";
     // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
-    XBT_ToXMLStream(type,param_value,CTX->os);
+    XBT_ToXMLStream(type,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
@@ -178,6 +178,9 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
         else if (*c == '>') CTX->os << "&gt;";
         else if (*c == '&') CTX->os << "&amp;";
         else if (*c == '\"') CTX->os << "&quot;";
+        else if (*c == '\r') CTX->os << "&#13;";
+        else if (*c == '\n') CTX->os << "&#10;";
+        else if (*c == '\t') CTX->os << "&#9;";
         else CTX->os << *c;
     }
     CTX->os << "\"";
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 506f259..6ae8970 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1136,7 +1136,7 @@ void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
     }
 }
 
-void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
+void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute)
 {
     char buffer[4096+1];
     int offset = 0;
@@ -1151,6 +1151,9 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
             else if (buffer[i] == '>') os << "&gt;";
             else if (buffer[i] == '&') os << "&amp;";
             else if (buffer[i] == '\"') os << "&quot;";
+            else if (buffer[i] == '\r') os << "&#13;"; // parsers change line ends
+            else if (attribute && buffer[i] == '\n') os << "&#10;"; // and white spaces in attributes
+            else if (attribute && buffer[i] == '\t') os << "&#9;";
             else os << buffer[i];
         }
     }
-- 
2.43.0


From ba9c4111990253415288594284e2b95361b971bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 082/112] fix: documents with cyclic references of children are
 rejected

---
 include/binary_xml/bin_xml.h | 2 +-
 src/bin_xml.cpp              | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 39d5528..dae4900 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -98,7 +98,7 @@ public:
     int32_t     length;     // =0 will signalize infinite object
 
 //--- Manipulation
-    bool                Check(XB_reader *R,bool recursive);
+    bool                Check(XB_reader *R,bool recursive,int deep = 0);
 
     XML_Param_Description *getParamByIndex(int i);
     XML_Param_Description *getParamByName(XML_Param_Names code);
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 40a5c83..080198d 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -22,11 +22,12 @@ namespace pklib_xml
 {
 
 
-bool XML_Item::Check(XB_reader *R,bool recursive) 
+bool XML_Item::Check(XB_reader *R,bool recursive,int deep) 
 // I want to check everything to be 100% sure, data are ok
 {
     if (THIS_IS_NULL) return false;  // NULL is not ok
     if (R == nullptr) return false;
+    if (deep > XML_MAX_DEEP) return false; // references of children make a cycle
     if (this < R->doc) return false; // out of space
     if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
     if (length < (int)sizeof(XML_Item) || paramcount < 0 || childcount < 0) return false; // negative counts would defeat size check
@@ -144,7 +145,7 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
         if (X == nullptr) return false;
     // header of every child must be readable - even when children are not checked
         if (X < R->doc || reinterpret_cast<const char *>(X)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-        if (recursive && !X->Check(R,true)) return false;
+        if (recursive && !X->Check(R,true,deep+1)) return false;
     }
             
     return true;
-- 
2.43.0


From 098da2e37668690cb4a40f468539ef8912318a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 083/112] fix: XML values in CDATA sections, behind comments
 and with entity references are kept, attributes with entity references do not
 abort

---
 include/binary_xml/bin_xml_plugin.h |  3 +++
 src/bin_xml_plugin.cpp              | 40 +++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index 02a2091..7eac264 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -11,6 +11,9 @@ class Bin_xml_plugin : public Bin_src_plugin // interface for xml input format
 protected:
     xmlDoc      *doc;
     xmlNode     *root_element;
+    xmlChar     *value_parts;   // last value consisting of more parts
+
+    const char *JoinParts(xmlNode *first);
 public:
     Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
     virtual ~Bin_xml_plugin();
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 3db0ee9..50dbaff 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -9,6 +9,7 @@ Bin_xml_plugin::Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_cre
     LIBXML_TEST_VERSION;
     this->doc = nullptr;
     this->root_element = nullptr;
+    this->value_parts = nullptr;
 }
 
 /*static void print_element_names(xmlNode * a_node)
@@ -35,6 +36,11 @@ Bin_xml_plugin::~Bin_xml_plugin()
         doc = nullptr;
     }
     root_element = nullptr;
+    if (value_parts != nullptr)
+    {
+        xmlFree(value_parts);
+        value_parts = nullptr;
+    }
 
     xmlCleanupParser(); // není to nebezpečné?
 }
@@ -71,12 +77,35 @@ const char *Bin_xml_plugin::getNodeName(void *element)
     return reinterpret_cast<const char*>(X->name);
 }
 
+const char *Bin_xml_plugin::JoinParts(xmlNode *first)
+// text can be split by comments, CDATA sections and references of entities
+{
+    if (value_parts != nullptr)
+    {
+        xmlFree(value_parts);
+        value_parts = nullptr;
+    }
+    for(xmlNode *N = first;N != nullptr && N->type != XML_ELEMENT_NODE;N = N->next)
+        if (N->type == XML_TEXT_NODE || N->type == XML_CDATA_SECTION_NODE)
+            value_parts = xmlStrcat(value_parts,N->content);
+        else if (N->type == XML_ENTITY_REF_NODE)
+        {
+            xmlChar *text = xmlNodeGetContent(N);
+            value_parts = xmlStrcat(value_parts,text);
+            if (text != nullptr) xmlFree(text);
+        }
+    return reinterpret_cast<const char *>(value_parts);
+}
+
 const char *Bin_xml_plugin::getNodeValue(void *element)
 {
     xmlNode *X = reinterpret_cast<xmlNode *>(element);
     if (X->children == nullptr) return nullptr;
-    if (X->children->type != XML_TEXT_NODE) return nullptr;
-    const char *value = reinterpret_cast<const char *>(X->children->content);
+    const char *value;
+    if (X->children->type == XML_TEXT_NODE && (X->children->next == nullptr || X->children->next->type == XML_ELEMENT_NODE))
+        value = reinterpret_cast<const char *>(X->children->content);
+    else
+        value = JoinParts(X->children);
     if (value == nullptr) return nullptr;
 //  if (X->childcount > 0) // is there nonspace value?
     while(*value != '\0' && isspace(*value)) value++;
@@ -126,6 +155,13 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
+        if (A->children == nullptr || A->children->type != XML_TEXT_NODE || A->children->next != nullptr) // references of entities
+        {
+            xmlChar *text = xmlNodeListGetString(doc,A->children,1);
+            on_param(reinterpret_cast<const char*>(A->name),text != nullptr ? reinterpret_cast<const char*>(text) : "",element,userdata);
+            if (text != nullptr) xmlFree(text);
+            continue;
+        }
         assert(A->children->type == XML_TEXT_NODE);
         const char *value = reinterpret_cast<const char*>(A->children->content);
     
-- 
2.43.0


From 507f009e9964af5e6d24724b3d4079b9fba3561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 084/112] fix: texts with odd number of hexadecimal digits are
 not stored as bytes without the last digit

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6ae8970..07b8000 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -195,7 +195,7 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         return XBT_UNIX_TIME64_MSEC;
     // 2024-12-22 - was DISABLED - not fully supported yet
     if (digits+hexadigits > 0 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0) 
-        return XBT_HEX;
+        return (digits+hexadigits) % 2 == 0 ? XBT_HEX : XBT_STRING; // half of byte cannot be stored
 
     return XBT_STRING;
 }
-- 
2.43.0


From 78b99a55d03e620ae4e6bf0ed6d91654070e2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 085/112] fix: JSON names without quotes are kept and too deep
 JSON documents are refused

---
 src/bin_json_plugin.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index d6914e8..18f6da3 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,10 +13,11 @@
 namespace pklib_xml {
 
 
-static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
+static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx,int deep = 0)
 // will fill my extension of jmntok_t - total_size
 {
     int total_size = 1;
+    if (deep > XML_MAX_DEEP) return tokens[idx].total_size = total_size; // total size will not match
 	switch (tokens[idx].type)
 	{
 		case JSMN_STRING:
@@ -25,14 +26,14 @@ static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
 		case JSMN_OBJECT:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				total_size += jsmn_prepare_total_size(tokens,idx+total_size,deep+1);
+				total_size += jsmn_prepare_total_size(tokens,idx+total_size,deep+1);
 			}
 			break;
 		case JSMN_ARRAY:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				total_size += jsmn_prepare_total_size(tokens,idx+total_size,deep+1);
 			}
 			break;
 		default:
@@ -237,7 +238,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	}
 	if (P->type != JSMN_OBJECT) return nullptr; // no object, no name!
 
-	if (X->type != JSMN_STRING) return nullptr;
+	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // names don't need to be quoted
 
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
-- 
2.43.0


From a4a81272ee47569efba2f3f09905d28775fac0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 086/112] fix: escape sequences of JSON texts are decoded

---
 src/bin_json_plugin.cpp | 86 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 18f6da3..096b9e6 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -43,6 +43,88 @@ static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx,int deep = 0)
     return tokens[idx].total_size = total_size;
 }
 
+//-------------------------------------------------------------------------------------------------
+
+static int ScanHex4(const char *p)
+// 4 digits of \uXXXX, -1 when there are less of them
+{
+	int value = 0;
+	for(int i = 0;i < 4;i++)
+	{
+		char c = p[i];
+		if (c >= '0' && c <= '9') value = value*16 + (c-'0');
+		else if (c >= 'A' && c <= 'F') value = value*16 + (c-'A'+10);
+		else if (c >= 'a' && c <= 'f') value = value*16 + (c-'a'+10);
+		else return -1;
+	}
+	return value;
+}
+
+static void Unescape(char *text)
+// decoded text is never longer
+{
+	const char *src = strchr(text,'\\');
+	if (src == nullptr) return; // usual case
+	char *dst = text + (src - text);
+	while (*src != '\0')
+	{
+		if (*src != '\\')
+		{
+			*(dst++) = *(src++);
+			continue;
+		}
+		switch (src[1])
+		{
+			case 'b': *(dst++) = '\b'; src += 2; continue;
+			case 'f': *(dst++) = '\f'; src += 2; continue;
+			case 'n': *(dst++) = '\n'; src += 2; continue;
+			case 'r': *(dst++) = '\r'; src += 2; continue;
+			case 't': *(dst++) = '\t'; src += 2; continue;
+			case '"': 
+			case '/': 
+			case '\\': *(dst++) = src[1]; src += 2; continue;
+			case 'u':
+			{
+				int code = ScanHex4(src+2);
+				if (code <= 0) break; // zero cannot be stored in text
+				src += 6;
+				if (code >= 0xd800 && code <= 0xdbff && src[0] == '\\' && src[1] == 'u')
+				{
+					int low = ScanHex4(src+2);
+					if (low >= 0xdc00 && low <= 0xdfff)
+					{
+						code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+						src += 6;
+					}
+				}
+				if (code >= 0x10000)
+				{
+					*(dst++) = 0xf0 | (code >> 18);
+					*(dst++) = 0x80 | ((code >> 12) & 0x3f);
+					*(dst++) = 0x80 | ((code >> 6) & 0x3f);
+					*(dst++) = 0x80 | (code & 0x3f);
+				}
+				else if (code >= 0x800)
+				{
+					*(dst++) = 0xe0 | (code >> 12);
+					*(dst++) = 0x80 | ((code >> 6) & 0x3f);
+					*(dst++) = 0x80 | (code & 0x3f);
+				}
+				else if (code >= 0x80)
+				{
+					*(dst++) = 0xc0 | (code >> 6);
+					*(dst++) = 0x80 | (code & 0x3f);
+				}
+				else
+					*(dst++) = code;
+				continue;
+			}
+		}
+		*(dst++) = *(src++); // unknown sequence is kept
+	}
+	*dst = '\0';
+}
+
 //-------------------------------------------------------------------------------------------------
 // Takže tady máme JSON. Je to jen osekané XML.
 // Tam, kde mělo XML objekt a data a jméno objektu a zanořené objekty + nadbytečné parametry,
@@ -210,6 +292,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			strncpy(last_str,source + P2->start,len);
 			
 			last_str[len] = 0;
+			Unescape(last_str);
+			len = strlen(last_str);
 			if (len > 0 && last_str[len-1] == 's')
 			{
 				last_str[len-1] = '\0';
@@ -245,6 +329,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	
 	strncpy(last_str,source + X->start,X->end - X->start);
 	last_str[X->end - X->start] = 0;
+	Unescape(last_str);
 	return last_str;
 }
 
@@ -267,6 +352,7 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
 	strncpy(last_value,source + X->start,X->end - X->start);
 	last_value[X->end - X->start] = 0;
+	if (X->type == JSMN_STRING) Unescape(last_value);
 	return last_value;
 }
 
-- 
2.43.0


From 0a39c1aa153e0a072a65bbf912e29147f7f257ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 087/112] fix: text behind the end of JSON document is refused
 also behind colon

---
 src/jsmn/jsmn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsmn/jsmn.c b/src/jsmn/jsmn.c
index e399c06..f2572c7 100644
--- a/src/jsmn/jsmn.c
+++ b/src/jsmn/jsmn.c
@@ -238,6 +238,9 @@ int jsmn_parse(jsmn_parser *parser, const char *js, size_t len,
 			case '\t' : case '\r' : case '\n' : case ' ':
 				break;
 			case ':':
+				/* There must be an opened object */
+				if (tokens != NULL && parser->toksuper == -1)
+					return JSMN_ERROR_INVAL;
 				parser->toksuper = parser->toknext - 1;
 				break;
 			case ',':
-- 
2.43.0


From 4f215a777e7cfe7c117e5d221d04da56a5172c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 088/112] fix: CopyPath reused elements of different name

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 1a78b2c..b94b60b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2794,7 +2794,8 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             BW_element *child  = BWE(dst->first_child);
             for(;;)
             {
-                if (child->EqualKeys(xb,element))
+                if (child->identification == element->name && // must be the same element type
+                    child->EqualKeys(xb,element))
                 { // Found!
                     element2 = child;
                     break;
-- 
2.43.0


From 1fa30e28815fd69a574d6ad92960be5a196a96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 089/112] fix: CopyAll reported success when children could not
 be copied

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b94b60b..6fddcd4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2838,6 +2838,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
         XML_Item *child = src->getChildByIndex(i);
         XML_Binary_Data_Ref data = child->getData();
         BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        ASSERT_NO_RET_NULL(2250,child2 != nullptr);
         dst->add(child2);
     }
     return dst;
-- 
2.43.0


From dc9b8caed5c02c1e5cc939721a783ed141a7a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 090/112] fix: CopyPath lost value of whole copied element and
 crashed when it could not be created

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 26 +++++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 2e5f36b..8163e87 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -331,6 +331,7 @@ public: // tag creation
     BW_element*     CopyPathOnly(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
 private:
+    BW_element*     TagForPath(bool copy_whole_last_node,XML_Item *src,va_list ap);
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
 public: // Bin_src_plugin
     virtual void *getRoot();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 6fddcd4..de2d435 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2726,6 +2726,20 @@ BW_element* BW_plugin::CopyPathOnly(XB_reader &xb,XML_Item *root,...)
     return result;
 }
 
+BW_element* BW_plugin::TagForPath(bool copy_whole_last_node,XML_Item *src,va_list ap)
+// new element for src, with value only when src is last in path and should be copied whole
+{
+    va_list rest;
+    va_copy(rest,ap);
+    bool is_last = va_arg(rest,XML_Item *) == nullptr;
+    va_end(rest);
+
+    if (!copy_whole_last_node || !is_last) return tag(src->name);
+
+    XML_Binary_Data_Ref data = src->getData();
+    return tagData(src->name,data);
+}
+
 BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap)
 {
 // source root
@@ -2737,7 +2751,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
     bool copy;
     if (pool->root == 0) // no root element -> create one
     {
-        setRoot(root2 = tag(root->name));
+        root2 = TagForPath(copy_whole_last_node,root,ap);
+        ASSERT_NO_RET_NULL(2251,root2 != nullptr);
+        setRoot(root2);
         copy = true;
     }
     else
@@ -2750,7 +2766,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                root2->first_child = tag(root->name)->offset;
+                BW_element *content = TagForPath(copy_whole_last_node,root,ap);
+                ASSERT_NO_RET_NULL(2252,content != nullptr);
+                root2->first_child = content->offset;
                 copy = true;
             }
             root2 = BWE(root2->first_child);
@@ -2807,7 +2825,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         // 2. Create if missing
         if (element2 == nullptr)
         {
-            dst->add(element2 = tag(element->name));
+            element2 = TagForPath(copy_whole_last_node,element,ap);
+            ASSERT_NO_RET_NULL(2253,element2 != nullptr);
+            dst->add(element2);
             copy = true;
         }
         else copy = false;
-- 
2.43.0


From 89f1fa47b4c480aefee4d0854024ee5d921ea413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 091/112] fix: failed import of symbols into writable document
 was not reported

---
 include/binary_xml/bin_write_plugin.h |  4 ++--
 src/bin_write_plugin.cpp              | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 8163e87..6ab8c4d 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -296,8 +296,8 @@ public:
     bool alterTag(int16_t id,XML_Binary_Type type);
     bool alterAttr(int16_t id,XML_Binary_Type type);
 
-    void importTags(XB_reader *src);
-    void importParams(XB_reader *src);
+    bool importTags(XB_reader *src);    // false when some symbol could not be registered
+    bool importParams(XB_reader *src);
     bool allRegistered();
 
     void setRoot(const BW_element* X);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index de2d435..c9055e6 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2277,35 +2277,39 @@ bool BW_plugin::alterAttr(int16_t id,XML_Binary_Type type)
     *current = type;
     return true;
 }
-void BW_plugin::importTags(XB_reader *src)
+bool BW_plugin::importTags(XB_reader *src)
 {
     if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
     else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
 
-    if (src == nullptr) return; // OK
+    if (src == nullptr) return true; // OK
 
     for(int i = 0;i < src->tag_symbols.count;i++)
-        registerTag(
+        ASSERT_NO_RET_FALSE(2254,
+            registerTag(
                 src->tag_symbols.getSymbol(i),
-                static_cast<XML_Binary_Type>(src->tag_symbols.getType(i)));
+                static_cast<XML_Binary_Type>(src->tag_symbols.getType(i))) != XTNR_NULL);
 
     if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
     else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+    return true;
 }
 
-void BW_plugin::importParams(XB_reader *src)
+bool BW_plugin::importParams(XB_reader *src)
 {
     if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
     else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
-    if (src == nullptr) return; // OK
+    if (src == nullptr) return true; // OK
 
     for(int i = 0;i < src->param_symbols.count;i++)
-        registerParam(src->param_symbols.
+        ASSERT_NO_RET_FALSE(2255,
+            registerParam(src->param_symbols.
             getSymbol(i),
-            static_cast<XML_Binary_Type>(src->param_symbols.getType(i)));
+            static_cast<XML_Binary_Type>(src->param_symbols.getType(i))) != XPNR_NULL);
 
     if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
     else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+    return true;
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From d0f639f1e923ca7d985884e999b473bf42e506e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 092/112] fix: XBT_Detect takes dashes inside, prefix, spaces
 or upper case of a text as part of a number

---
 src/bin_xml_types.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 07b8000..711a236 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -63,6 +63,7 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
     int exponent = 0;
     int spaces = 0;
     int whites = 0;
+    int uppers = 0;
     int exponent_pos = -1;
     bool overflow64 = false;
 
@@ -98,6 +99,7 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         else if (*p >= 'A' && *p <= 'F')
         {
             hexadigits++;
+            uppers++;
             if (*p == 'E')
             {
                 exponent_pos = len;
@@ -118,6 +120,7 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
             whites++;
         else
             others++;
+        len++;
     }
     if (verbose)
         std::cerr << value << " --> if ("
@@ -147,7 +150,8 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
 //if (hex_prefix == 0 && str_len == 11 && digits == 10 && decimals == 0 && hexadigits == 0 && negative == 1 && dots == 0 && dashes == 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1 && overflow64 == 0
 
     if (digits > 0 && digits <= 19 && hexadigits == 0 && negative <= 1 
-            && dots == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && !overflow64)
+            && dots == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && !overflow64
+            && dashes == negative && hex_prefix == 0) // dash is allowed only as sign
     {
         if (negative == 0 && X <= 0x7fffffff) return XBT_INT32;
         if (negative == 1 && X <= 0x80000000) return XBT_INT32;
@@ -156,7 +160,8 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         return XBT_INT64;
     }
 //    if (hex_prefix == 1 && digits+hexdigits > 0 && hexdigits+digits <= 16 && dots == 0 && dashes == 0 && colons == 0 && others == 0 && exponent == 0 && !overflow64)
-    if (digits > 0 && dots == 1 && hexadigits == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && !overflow64)
+    if (digits > 0 && dots == 1 && hexadigits == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && !overflow64
+            && dashes == negative && whites == 0 && hex_prefix == 0)
     {
         if ((negative == 0 && X <= 0x7fffffff) || (negative == 1 && X <= 0x80000000))
         {
@@ -168,12 +173,15 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         }
     }
     if (digits > 0 && hexadigits-exponent == 0 && negative <= 2
-            && dots <= 1 && dashes <= 2 && colons == 0 && others == 0 && exponent <= 1)
+            && dots <= 1 && dashes <= 2 && colons == 0 && others == 0 && exponent <= 1
+            && dashes == negative && whites == 0 && hex_prefix == 0
+            && (exponent == 0 || (exponent_pos > 0 && isdigit(value[exponent_pos-1]) && isdigit(value[len-1]) && strchr(value+exponent_pos,'.') == nullptr))) // digits are on both sides of E
     {
         if (EX > 38 || digits >= 8) return XBT_DOUBLE;  
         else return XBT_FLOAT;
     }
-    if (digits+hexadigits == 40 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0)
+    if (digits+hexadigits == 40 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0
+            && whites == 0 && hex_prefix == 0)
     {
         //        std::cout << ANSI_BLUE_DARK "XBT_SHA1 detected in value " << value << ANSI_RESET_LF;
         return XBT_SHA1;
@@ -181,20 +189,21 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
     if (hex_prefix == 0 && str_len == 36 && digits+hexadigits == 32 && decimals == 0 && dots == 0 && dashes == 4 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1)
         return XBT_GUID;
     // 2021-06-15 22:41:40
-    if (str_len == 19 && digits == 14 && spaces == 1 && negative == 2 && colons == 2 &&
+    if (str_len == 19 && digits == 14 && spaces == 1 && dashes == 2 && colons == 2 &&
             value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':')
         return XBT_UNIX_TIME;
     // 2021-06-15 22:41:40.000
-    if (str_len == 23 && digits == 17 && spaces == 1 && negative == 2 && colons == 2 &&
+    if (str_len == 23 && digits == 17 && spaces == 1 && dashes == 2 && colons == 2 &&
             value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
         return XBT_UNIX_TIME64_MSEC;
     // 2026-03-20T15:51:55.773Z
-    if (str_len == 24 && digits == 17 && spaces == 0 && negative == 2 && colons == 2 &&
+    if (str_len == 24 && digits == 17 && spaces == 0 && dashes == 2 && colons == 2 &&
             value[10] == 'T' && value[23] == 'Z' &&
             value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
         return XBT_UNIX_TIME64_MSEC;
     // 2024-12-22 - was DISABLED - not fully supported yet
-    if (digits+hexadigits > 0 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0) 
+    if (digits+hexadigits > 0 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0
+            && whites == 0 && uppers == 0 && hex_prefix == 0) // HEX is printed in lower case without prefix and spaces
         return (digits+hexadigits) % 2 == 0 ? XBT_HEX : XBT_STRING; // half of byte cannot be stored
 
     return XBT_STRING;
-- 
2.43.0


From 6c41f3050179d5629dfe1885815f12438e6b5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 093/112] fix: GetXB answers .wb instead of .xb for a .wsdl
 file

---
 src/bin_xml_packer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 1f71b19..c6e062f 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -378,6 +378,7 @@ bool Bin_xml_packer::GetXB(const char *xml_filename,char *xb_filename,const char
     strcpy(xb_filename,xml_filename);
     xb_filename[len-1] = 0;
     xb_filename[len-2] = 'b';
+    xb_filename[len-3] = 'x'; // .wsdl has 'w' here
 
     Bin_xml_packer BXP(xml_filename,xb_filename);
 
-- 
2.43.0


From 82cb15de7d436e2248523cb4d95626cad7aa506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:35 +0000
Subject: [PATCH 094/112] fix: 2xbw gives up when values of one name have
 different types

---
 src/bin_xml_creator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 278bb99..3bfb762 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1171,6 +1171,8 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
         tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
         if (value == nullptr || (*value == '\0' && tag_type != XBT_STRING))
             tag_type = XBT_NULL; // this one has no value
+        if (tag_type == XBT_VARIANT)
+            tag_type = XBT_Detect(value); // each value has its own type
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
     // if size of result is only result, it is waste of CPU time.
-- 
2.43.0


From ad5909ea61bea9deca447873adf08613e5187a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 095/112] fix: symbols copied before CopySymbolTable failed are
 lost

---
 src/bin_xml_creator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 3bfb762..a4394b7 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -491,6 +491,10 @@ bool Bin_xml_creator::MakeSymbolTable()
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
         int count = MAX_SYMBOL_COUNT;//(t == SYMBOL_TABLE_NODES ? total_node_count : total_param_count);
+        for(int i = 0;i < symbol_count[t];i++)
+            free((void*)symbol_table[t][i]); // incomplete copy from CopySymbolTable
+        free(this->symbol_table[t]);
+        free(this->symbol_table_types[t]);
         this->symbol_table[t] = reinterpret_cast<const char **>(alloca(sizeof(char*)*count));
         this->symbol_table_types[t] = reinterpret_cast<XML_Binary_Type_Stored*>(alloca(sizeof(XML_Binary_Type_Stored)*count));
         memset(this->symbol_table_types[t],0,sizeof(XML_Binary_Type_Stored)*count);
-- 
2.43.0


From 3f930bb3b094f59dc8858dbcd21537a64fbae7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:29 +0000
Subject: [PATCH 096/112] fix: sequential search of names steps over the zero
 behind a name

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c9055e6..3488852 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1300,6 +1300,7 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
             // skip rest of identifier
             while(p < p_limit && *p != '\0') p++; // find end of string
             if (p >= p_limit) return -1; // not found
+            p++; // skip ASCII.NUL
 
             AA(p); // round 4B
             // next id
-- 
2.43.0


From b1f71904cc2a5d8b827284923f4944de4fd64dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 097/112] fix: extension is searched only in the last part of
 the path

---
 src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index c07b953..c89b37f 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -240,6 +240,8 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
         return new_name;
     }
     const char *dot = strrchr(filepath,'.');
+    const char *slash = strrchr(filepath,'/');
+    if (dot != nullptr && slash != nullptr && dot < slash) dot = nullptr; // dot in directory is not extension
     int len = (dot != nullptr ? dot - filepath : strlen(filepath));
     int ext_len = strlen(extension);
 
-- 
2.43.0


From 751532549830ad7fc5d561e0aa86ddda03f08791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 098/112] fix: too long target directory leaves space for
 terminator

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index c89b37f..272f932 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -227,7 +227,7 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
 
         STRCPY(filepath,target_dir);
         int len = strlen(filepath);
-        filepath[len++] = '/';
+        if (len < PATH_MAX-1) filepath[len++] = '/';
         strncpy(filepath+len,filename,PATH_MAX-len-1);
     }
     else 
-- 
2.43.0


From 5e02c1a1dde229d705881cc45cb3be3363d9257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:07 +0000
Subject: [PATCH 099/112] fix: Int64ToStr writes the smallest value too

---
 src/utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 272f932..28b29cd 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1195,17 +1195,17 @@ const char *Int64ToStr(int64_t value,char40_t buffer)
     if (buffer == nullptr) return nullptr;
 
     bool neg = (value < 0);
-    if (neg) value = -value;
+    uint64_t value_abs = neg ? -static_cast<uint64_t>(value) : value; // INT64_MIN has no positive int64_t
 
     char *p = buffer + sizeof(char40_t);
     *(--p) = '\0'; // terminating symbol;
     if (value == 0)
         *(--p) = '0'; // zero
     else 
-        while (value > 0)
+        while (value_abs > 0)
         {
-            *(--p) = '0' + (value % 10);
-            value /= 10;
+            *(--p) = '0' + (value_abs % 10);
+            value_abs /= 10;
         }
 
     if (neg) 
-- 
2.43.0


From 1338817cad6057c0a3cb78864a504aaf76c413b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 100/112] fix: ScanStr writes nothing into empty buffer

---
 src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 28b29cd..f1daddd 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -711,6 +711,7 @@ bool ScanStr(const char *&p,char separator,char *value,unsigned value_size)
         }
         if (*p == separator) p++; // sezere oddelovac!
     }
+    if (value_size == 0) return false; // no space even for terminator
     *d = '\0';
     return *value != '\0'; // string is not empty
 }
@@ -989,6 +990,7 @@ bool ScanStrW(char *&p,char separator,char *value,unsigned value_size)
         }
     }
     if (*p != '\0') p++; // sezere oddelovac!
+    if (value_size == 0) return false; // no space even for terminator
     *d = '\0';
     return *value != '\0'; // string is not empty
 }
-- 
2.43.0


From f8eda40301fdd9fd2cc2d96685309a2991dfcfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 101/112] fix: StrWrite moves source even without limit

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f1daddd..0c88450 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1104,7 +1104,7 @@ bool StrWrite(char *&dest,const char *dest_limit,const char *&src,const char *sr
     if (src_size > dst_space) return false; // nic neudělám a končím
     strncpy(dest,src,src_size);
     dest += src_size;
-    src = src_limit;
+    src += src_size;
     return true;
 }
 
-- 
2.43.0


From cfe77b9262dbc2941ef0d6b57b38f396657bddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:11 +0000
Subject: [PATCH 102/112] fix: asterix in mask matches empty rest and question
 mark exactly one character

---
 src/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0c88450..c4f31a1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -751,19 +751,20 @@ bool AdvEqual(const char *mask,const char *value)
         else if (*mask == '*')
         {
             mask++;
-            while (*mask == '*' || *mask == '?') mask++;
+            while (*mask == '*') mask++;
 
             // I need to find the first character after *
 
             while (*value != '\0')
             {
-                if (*mask == *value && AdvEqual(mask+1,value+1)) return true; // found
+                if (AdvEqual(mask,value)) return true; // found
                 value++;
             }
         }
         else return false; // no match
 
     }
+    while (*mask == '*') mask++; // nothing left for asterix
     return *mask == '\0' && *value == '\0'; // both strings has the same end
 }
 
-- 
2.43.0


From 63df318a0e45d24301dfa627aec262880b8ecbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:12 +0000
Subject: [PATCH 103/112] fix: qsort_r2 compares with a copy of the pivot

---
 src/missings.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..362fe9f 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -21,18 +21,20 @@ void qsort_r2(void *base, int nmemb, int size,
     if (nmemb < 2) return;
 
     char *temp = (char*)alloca(size);
+    char *pivot = (char*)alloca(size);
 #define BASE(idx) ((char*)base + (size)*(idx))
 
     int test = nmemb / 2;
 
     int left = 0;
     int right = nmemb - 1;
-    for(;;)
+    memcpy(pivot,BASE(test),size); // test item can be moved
+    while (left <= right)
     {
-        while (compar(BASE(left),BASE(test),arg) < 0 && left < right) left++;
-        while (compar(BASE(right),BASE(test),arg) > 0 && left < right) right--;
+        while (compar(BASE(left),pivot,arg) < 0) left++;
+        while (compar(BASE(right),pivot,arg) > 0) right--;
 
-        if (left >= right) break;
+        if (left > right) break;
 
         memcpy(temp,BASE(left),size);
         memcpy(BASE(left),BASE(right),size);
@@ -41,7 +43,7 @@ void qsort_r2(void *base, int nmemb, int size,
         right--;
     }
 
-    qsort_r2(base, left,                size,compar,arg);
+    qsort_r2(base, right + 1,           size,compar,arg);
     qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
 #undef BASE
 }
-- 
2.43.0


From 7065a9ea6be015addf0917a1301596eda195d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 104/112] fix: file_getsha1 reads until the end of file

---
 src/missings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 362fe9f..de3b8bf 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -157,8 +157,8 @@ bool file_getsha1(const char *filename,unsigned char *hash)
             return false;
         }
         blk_SHA1_Update(&ctx,buffer,size);
-        if (size < (int)sizeof(buffer))
-            break; // finished
+        if (size == 0)
+            break; // finished - read can give less than requested before end of file
     }
     blk_SHA1_Final(hash,&ctx);    
     if (close(fd) < 0)    
-- 
2.43.0


From 5032e69047386fa48517e54e99cd9470e2da4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:22 +0000
Subject: [PATCH 105/112] fix: merging duplicates of a document with many
 elements overflowed the stack

---
 src/bin_xml_packer.cpp |  3 ++-
 src/missings.cpp       | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index c6e062f..be71a1f 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -160,7 +160,7 @@ void Bin_xml_packer::MarkReferences()
     DBG(std::cout << "==================" << computed_hashes << " OK\n");
 
 // sort all
-    SN.index = reinterpret_cast<int*>(alloca(sizeof(int)*total_node_count));
+    SN.index = new int[total_node_count];
     for(int i = 0;i < total_node_count;i++) SN.index[i] = i;
     mergesort_r2
        (reinterpret_cast<void*>(SN.index),
@@ -241,6 +241,7 @@ void Bin_xml_packer::MarkReferences()
     }
     delete [] SN.node_links;
     delete [] SN.node_hashes;
+    delete [] SN.index;
 }
 
 char *Bin_xml_packer::PackNode(char **_wp,char *_X)
diff --git a/src/missings.cpp b/src/missings.cpp
index de3b8bf..0d71445 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -53,9 +53,10 @@ void mergesort_r2(void *base, int nmemb, int size,
                   void *arg)
 {
     void *src = base;
-    void *dst = alloca(size*nmemb);
-#define SRC(idx) ((char*)src + (size)*(idx))
-#define DST(idx) ((char*)dst + (size)*(idx))
+    char *copy = new char[(size_t)size*nmemb];
+    void *dst = copy;
+#define SRC(idx) ((char*)src + (size_t)(size)*(idx))
+#define DST(idx) ((char*)dst + (size_t)(size)*(idx))
     for(int merge_len = 1;merge_len < nmemb;merge_len <<= 1)
     {
         int D = 0;
@@ -108,7 +109,8 @@ void mergesort_r2(void *base, int nmemb, int size,
 #undef SRC
 #undef DST
     if (dst == base)
-        memcpy(base,src,size * nmemb);
+        memcpy(base,src,(size_t)size * nmemb);
+    delete [] copy;
 }
 
 
-- 
2.43.0


From 31e26b51a2369d8a00038858779388ce66abd68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:25 +0000
Subject: [PATCH 106/112] fix: long texts were converted on the stack, tagData
 left the caller with a reference to it

---
 src/bin_write_plugin.cpp | 34 ++++++++++++++++++++++------------
 src/bin_xml_types.cpp    | 34 ++++++++++++----------------------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3488852..0b1625b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -54,6 +54,14 @@ BW_plugins plugins;
 #undef WORK_ID
 #define WORK_ID getPool()->getDocTypeName()
 
+struct Temporary_buffer // for contents which can be too long for stack
+{
+    char *data;
+
+    Temporary_buffer(int size) : data(size > 0 ? new char[size] : nullptr) {}
+    ~Temporary_buffer() { delete [] data; }
+};
+
 void BW_element::init(BW_pool *pool,int16_t identification,int8_t value_type,int8_t flags)
 {
     if (THIS_IS_NULL)
@@ -636,11 +644,11 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     { // default conversion
         // this is not so easy
         // I must know the size of target representation before I start
-        char *buffer = reinterpret_cast<char*>(alloca(data.size+64)); // binary representation should fit into it's string representation size
-        char *p = buffer;
+        Temporary_buffer buffer(data.size+64); // binary representation should fit into it's string representation size
+        char *p = buffer.data;
         //bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
-        ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer+data.size+64));
-        int target_data_size = p - buffer;
+        ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer.data+data.size+64));
+        int target_data_size = p - buffer.data;
 
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+target_data_size));
         if (attr == nullptr) // need makeSpace
@@ -654,7 +662,7 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
 
         attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
 
-        memcpy(attr+1,buffer,target_data_size);
+        memcpy(attr+1,buffer.data,target_data_size);
 
         add(attr);
     }
@@ -2691,23 +2699,25 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
         return tag(id);
 
     XML_Binary_Type tag_type = pool->getTagType(id);
+    const char *content = data.data;
+    int content_size = data.size;
+    Temporary_buffer buffer(tag_type != data.type ? data.size+64 : 0);
     if (tag_type != data.type)
     {
         ASSERT_NO_RET_NULL(2001,data.type == XBT_STRING); // only supported conversion
-        char *buffer = reinterpret_cast<char*>(alloca(data.size+64));
-        char *p = buffer;
-        char *p_limit = buffer + data.size + 64;
+        char *p = buffer.data;
+        char *p_limit = buffer.data + data.size + 64;
         // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         ASSERT_NO_RET_NULL(2004,XBT_FromString(data.data,tag_type,&p,p_limit));
-        data.data = buffer;
-        data.size = p - buffer;
+        content = buffer.data;
+        content_size = p - buffer.data;
     }
 
-    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+content_size));
     if (result == nullptr) return nullptr; // error message already shown in allocate
     result->init(pool,id,tag_type,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,data.data,data.size); // copy content
+    memcpy(result+1,content,content_size); // copy content
     
     return result;
 }
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 711a236..9371520 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1172,28 +1172,18 @@ bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
 {
     if (A.type != B.type)
     {
-        if (A.type == XBT_STRING)
-        {
-            char *buffer = reinterpret_cast<char*>(alloca(A.size+64));
-            char *buffer_limit = buffer+A.size+64;
-            char *p = buffer;
-            if (!XBT_FromString(A.data,B.type,&p,buffer_limit)) return false; // cannot convert
-
-            A.data = buffer;
-            A.size = p - buffer;
-        }
-        else if (B.type == XBT_STRING)
-        {
-            char *buffer = reinterpret_cast<char*>(alloca(B.size+64));
-            char *buffer_limit = buffer+B.size+64;
-            char *p = buffer;
-            if (!XBT_FromString(B.data,A.type,&p,buffer_limit)) return false; // cannot convert
-
-            B.data = buffer;
-            B.size = p - buffer;
-        }
-        else
-            return false; // no compare of any types
+        if (A.type != XBT_STRING && B.type != XBT_STRING) return false; // no compare of any types
+
+        const XML_Binary_Data_Ref &text = A.type == XBT_STRING ? A : B;
+        const XML_Binary_Data_Ref &value = A.type == XBT_STRING ? B : A;
+
+        const int buffer_size = text.size+64;
+        char *buffer = new char[buffer_size]; // text can be too long for stack
+        char *p = buffer;
+        bool equal = XBT_FromString(text.data,value.type,&p,buffer+buffer_size)
+                    && p - buffer == value.size && memcmp(buffer,value.data,value.size) == 0;
+        delete [] buffer;
+        return equal;
     }
     if (A.size != B.size) return false;
     return memcmp(A.data,B.data,A.size) == 0;
-- 
2.43.0


From 7e0eba648157ba2214bd9e1d926ca4a8a35fa416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 107/112] fix: documents nested deeper than a reader accepts
 were converted or overflowed the stack

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_write_plugin.cpp             |  1 +
 src/bin_xml_creator.cpp              | 13 +++++++++++++
 3 files changed, 15 insertions(+)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..0321166 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -94,6 +94,7 @@ protected:
 // 1st pass to enumerate paramcount
     int     total_node_count;
     int     total_param_count;
+    bool    too_deep;
 // 2nd pass to fill tables
     const char              **symbol_table[SYMBOL_TABLES_COUNT];
     XML_Binary_Type_Stored  *symbol_table_types[SYMBOL_TABLES_COUNT];
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0b1625b..640bcd4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2949,6 +2949,7 @@ void BW_plugin::ForAllChildrenRecursively(OnElementRec_t on_element,void *parent
     BW_element *E = reinterpret_cast<BW_element*>(parent);
     on_element(E,userdata,deep);
     if (E->first_child == 0) return; // no elements
+    if (deep >= XML_MAX_DEEP) return; // stack is limited, event can see the deep
     BW_element *child = BWE(E->first_child);
     for(;;)
     {
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a4394b7..824fad1 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -121,6 +121,7 @@ void Bin_src_plugin::print()
 void Bin_src_plugin::s_PrintElement(void *element,void *userdata)
 {
     Bin_src_plugin *_this = reinterpret_cast<Bin_src_plugin*>(userdata);
+    if (_this->print_deep > XML_MAX_DEEP) return; // stack is limited
 
     printf("\n%*s<%s",_this->print_deep*TAB_SIZE,"",_this->getNodeName(element));
     _this->ForAllParams(s_PrintParam,element,userdata);
@@ -193,6 +194,11 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 
     int deep = CTX->deep;
     int sibling_count = CTX->sibling_count;
+    if (deep > XML_MAX_DEEP) // stack is limited
+    {
+        CTX->os.setstate(std::ios_base::failbit);
+        return;
+    }
 //-----------------------------------------------------------------------------------
 
     if (deep > 0 && sibling_count == 0) // finish parent tag
@@ -391,7 +397,9 @@ bool Bin_xml_creator::Make_xb()
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
     // total_node_count, total_param_count
+    this->too_deep = false;
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
+    ASSERT_NO_RET_FALSE(2256,!too_deep); // reader would refuse it
 
     ASSERT_NO_RET_FALSE(2249,CopySymbolTable() || MakeSymbolTable()); // no memory for symbols
     // 2. show stats---------------------------------
@@ -561,7 +569,9 @@ bool Bin_xml_creator::Append(void *element)
 // element can be bigger than previously processed document
     total_node_count = 0;
     total_param_count = 0;
+    too_deep = false;
     src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    ASSERT_NO_RET_FALSE(2258,!too_deep); // reader would refuse it
     src->updateFileSize();
     int64_t needed = 1024 + src->getFileSize()*4LL + total_node_count*(sizeof(XML_Item)+sizeof(relative_ptr_t)+16LL) + total_param_count*(sizeof(XML_Param_Description)+16LL);
     ASSERT_NO_RET_FALSE(2217,needed < 0x7fff0000LL); // too big
@@ -596,6 +606,7 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+    if (deep+2 > XML_MAX_DEEP) _this->too_deep = true; // root is child of payload of document
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
     
@@ -662,7 +673,9 @@ bool Bin_xml_creator::Make_xbw()
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
     // total_node_count, total_param_count
+    this->too_deep = false;
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
+    ASSERT_NO_RET_FALSE(2257,!too_deep); // stack is limited
 
     ASSERT_NO_RET_FALSE(2249,CopySymbolTable() || MakeSymbolTable()); // no memory for symbols
     // 2. show stats---------------------------------
-- 
2.43.0


From 899358e6c3fba126a1cfa0d5271992cf28db60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:43 +0000
Subject: [PATCH 108/112] fix: sorting and creation of directories used stack
 in proportion to their input

---
 src/files.cpp    |  9 +++++++-
 src/missings.cpp | 53 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index 83a45a4..f19bfb9 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -13,11 +13,18 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <limits.h>
 
 bool force_directory(const char *directory, mode_t mode)
 {
     const int len = strlen(directory);
-    char *directory_part = static_cast<char*>(alloca(len + 1)); // copy of directory
+    char directory_part[PATH_MAX]; // copy of directory
+    if (len >= PATH_MAX)
+    {
+        errno = ENAMETOOLONG;
+        ERRNO_SHOW(2259,"mkdir",directory);
+        return false;
+    }
 
     for(int i = 1;i < len;i++) // skipping the 1st directory
     {
diff --git a/src/missings.cpp b/src/missings.cpp
index 0d71445..d243d74 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -20,31 +20,46 @@ void qsort_r2(void *base, int nmemb, int size,
 {
     if (nmemb < 2) return;
 
-    char *temp = (char*)alloca(size);
-    char *pivot = (char*)alloca(size);
+    char *temp = new char[size];
+    char *pivot = new char[size];
 #define BASE(idx) ((char*)base + (size)*(idx))
 
-    int test = nmemb / 2;
-
-    int left = 0;
-    int right = nmemb - 1;
-    memcpy(pivot,BASE(test),size); // test item can be moved
-    while (left <= right)
+    while (nmemb >= 2)
     {
-        while (compar(BASE(left),pivot,arg) < 0) left++;
-        while (compar(BASE(right),pivot,arg) > 0) right--;
+        int test = nmemb / 2;
 
-        if (left > right) break;
+        int left = 0;
+        int right = nmemb - 1;
+        memcpy(pivot,BASE(test),size); // test item can be moved
+        while (left <= right)
+        {
+            while (compar(BASE(left),pivot,arg) < 0) left++;
+            while (compar(BASE(right),pivot,arg) > 0) right--;
 
-        memcpy(temp,BASE(left),size);
-        memcpy(BASE(left),BASE(right),size);
-        memcpy(BASE(right),temp,size);
-        left++;
-        right--;
-    }
+            if (left > right) break;
+
+            memcpy(temp,BASE(left),size);
+            memcpy(BASE(left),BASE(right),size);
+            memcpy(BASE(right),temp,size);
+            left++;
+            right--;
+        }
 
-    qsort_r2(base, right + 1,           size,compar,arg);
-    qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
+    // recursion is used for the smaller part only - its deep is limited
+        if (right + 1 < nmemb - left)
+        {
+            qsort_r2(base,right + 1,size,compar,arg);
+            base = BASE(left);
+            nmemb -= left;
+        }
+        else
+        {
+            qsort_r2(BASE(left),nmemb - left,size,compar,arg);
+            nmemb = right + 1;
+        }
+    }
+    delete [] pivot;
+    delete [] temp;
 #undef BASE
 }
 
-- 
2.43.0


From 87c9735c7b3786fadab5e74243b7084925023fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:34 +0000
Subject: [PATCH 109/112] fix: message of a failed check asked for the name of
 the root without end

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 640bcd4..0d328d1 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1678,8 +1678,9 @@ const char *BW_pool::getDocTypeName()
     if ((plugin == nullptr || plugin->isInitialized()) && root > getPoolSize() && root < allocator) // not checked file has no root
     {
         BW_element *root = BWE(this->root);   
-        ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
-        const char *name = tags.getName(this,root->identification);    
+        // no ASSERT here - its message is made by this method
+        if (!(root->flags & BIN_WRITE_ELEMENT_FLAG)) return "(bad root flags)";
+        const char *name = root->identification <= tags.max_id ? tags.getName(this,root->identification) : nullptr;
         if (name != nullptr) return name;
     }
 // OK, no root name - so some early stage
-- 
2.43.0


From 87e2630ddec66f275f4e224d2c561ec398feadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:51 +0000
Subject: [PATCH 110/112] fix: scan_dir no longer reports a failure when the
 callback stops it with errno set

---
 src/files.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index f19bfb9..8bd0898 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -140,7 +140,11 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
             if (dirent->d_name[1] == '\0') continue; // skip .
             else if (dirent->d_name[1] == '.' && dirent->d_name[2] == '\0') continue; // skip ..
         }
-        if (!on_file(base_dir,dirent->d_name,userdata,dirent->d_type)) break;
+        if (!on_file(base_dir,dirent->d_name,userdata,dirent->d_type))
+        {
+            errno = 0; // whatever the callback left there, reading did not fail
+            break;
+        }
 
 /*        if (*dirent->d_name == '.') continue; // hidden files .*, current dir and upper dir
         switch (dirent->d_type)
-- 
2.43.0


From f3a8a6bda7bdac8bd5c5e931c6e6afc0885e53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:23 +0000
Subject: [PATCH 111/112] fix: block without terminator was retyped to a text,
 which was read behind its end

---
 src/bin_write_plugin.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0d328d1..55629b7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -219,10 +219,15 @@ BW_element*     BW_element::retype(XML_Binary_Type new_type)
     }
     else if (XBT_IS_VARSIZE(new_type))
     {
-        if (XBT_IS_VARSIZE(this->value_type))
-            this->value_type = new_type;
-        else
+        if (!XBT_IS_VARSIZE(this->value_type))
             return nullptr; // failed
+        if (new_type == XBT_BLOB_STRING)
+        { // text is read up to its terminator, which must be inside of stored block
+            XML_Binary_Data_Ref R = getData();
+            if (R.content_size <= 0 || memchr(R.content,'\0',R.content_size) == nullptr) 
+                return nullptr; // failed
+        }
+        this->value_type = new_type;
     }
     else
         return nullptr; // failed
-- 
2.43.0


From 7aff60866a28530e832313358946e31fc928554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:13 +0000
Subject: [PATCH 112/112] fix: time before 1970 was printed with negative
 hours, minutes and seconds of the next day

---
 src/utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index c4f31a1..1cef777 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -669,9 +669,16 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
+    const int64_t day_msec = 1000 * 60*60*24;
+    int64_t day = value / day_msec;
+    value %= day_msec;
+    if (value < 0) // before 1970
+    {
+        value += day_msec;
+        day--;
+    }
+    char *p = UnixDate2Str(day,dst);
     p += strlen(p);
-    value %= 1000 * 60*60*24;
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0

