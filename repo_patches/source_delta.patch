From ab012035d77622a5fb5803fcc28b54a8a2e01b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 001/112] fix: account for the hidden record version field in
 the record layout

The hidden VERSION column of tables with record locking was appended to the
field list without being counted, so its offset and the record length were
computed without it.
---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..16be913 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -298,6 +298,7 @@ void Table::init(int32_t block_descr)
 		fld->set_name("VERSION");
 		fld->set_type_manager(FieldType::Version8());
 		fields.push_back(fld);
+		num_fields++;
 	}
 
 	t = t->get_next();
-- 
2.43.0


From 1b33ad5e8a8cefbe5ebeb2634b6eefefbf996024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 002/112] fix: write line breaks of base64 text as UTF-16

---
 src/tool1cd/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..dcd795b 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -50,7 +50,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	{
 		if(blocksout >= linesize/4 && linesize)
 		{
-			outfile->Write(L"\r\n", 4);
+			outfile->Write(u"\r\n", 2 * sizeof(WCHART));
 			blocksout = 0;
 		}
 		blocksout++;
@@ -65,7 +65,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	len = infile->GetSize() - infile->GetPosition();
 	if(len > 0)
 	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(u"\r\n", 2 * sizeof(WCHART));
 		in[1] = 0;
 		in[2] = 0;
 		infile->Read(in, len);
-- 
2.43.0


From bb99f0b464088961084a16ee7c7dfbedf76f31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 003/112] fix: use the stored length of text values in XML
 export

---
 src/tool1cd/FieldType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..dc2bba4 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -751,7 +751,8 @@ string CommonFieldType::get_XML_presentation(const char *rec, const Table *paren
 			uint32_t *retyped = (uint32_t*)fr;
 			out = new TMemoryStream();
 			parent->readBlob(out, retyped[0], retyped[1]);
-			string s = toXML(string(static_cast<char*>(out->GetMemory()), 0, out->GetSize()));
+			auto &bytes = out->GetBytes();
+			string s = toXML(string(bytes.begin(), bytes.end()));
 			delete out;
 			return s;
 		}
-- 
2.43.0


From 9b94e9641d04bce6c46aa447afa80779b436e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 004/112] fix: no trailing NULs in hexadecimal presentation of
 binary values

---
 src/tool1cd/FieldType.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index dc2bba4..2d5c6bc 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,17 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
 
 	int32_t m = *(int16_t*)fr; // длина + смещение
+	m = max(0, min(m, length));
+	result.resize(m * 2);
+
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +79,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From 4974838f21828531106a432a97d7190c00c2b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 005/112] fix: limit the length of string values to the size of
 the field

---
 src/tool1cd/FieldType.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 2d5c6bc..6f38554 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -680,12 +680,9 @@ string CommonFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + (length * sizeof(WCHART))));
 		}
 		case type_fields::tf_varchar: {
-			int16_t length = *(int16_t *) fr;
-			fr += sizeof(length);
-			auto full_size = length * sizeof(WCHART);
-			if (full_size > get_size()) {
-				full_size = get_size();
-			}
+			int16_t stored_length = *(int16_t *) fr;
+			fr += sizeof(stored_length);
+			int32_t full_size = max(0, min<int32_t>(stored_length, length)) * sizeof(WCHART);
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + full_size));
 		}
 		case type_fields::tf_version: {
-- 
2.43.0


From b7f13bab8b9febda90f2c6159a98a8b7b0276b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 006/112] fix: read exactly the 14 digits of a packed date

---
 src/tool1cd/BinaryDecimalNumber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..b9ab394 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -210,7 +210,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From 3ba35abeeffcf7640c43dbde764904853b1fd348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 007/112] fix: find the records of tables that have only
 secondary indexes

---
 src/ctool1cd/App.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2dde0f7..204fd08 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -81,9 +81,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 	for (int j = 0; j < base1CD->get_numtables(); j++) {
 		tbl = base1CD->get_table(j);
 
-		if (!tbl->get_num_indexes()) {
-			tbl->fill_records_index();
-		}
+		tbl->fill_records_index();
 
 		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
 
-- 
2.43.0


From c14c14a1edf66a5193593f547fa8b586af8bf6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 008/112] fix: initialise the number of image fields in XML
 export

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 16be913..be146f9 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -915,7 +915,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		curindex= *primary;
 	}
 
-	int image_count; // количество полей с типом image
+	int image_count = 0; // количество полей с типом image
 	for (auto field : fields) {
 		f.WriteString(fpart1);
 		f.WriteString(field->get_name());
-- 
2.43.0


From 91b0bfcfb64d8fc9469cdc752cfbfd7cc13c4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 009/112] fix: null key values do not stop the export of a
 table

---
 src/tool1cd/Table.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index be146f9..2855d33 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -956,7 +956,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		if(curindex) nr = curindex->get_numrec(j);
 		else nr = recordsindex[j];
 		std::shared_ptr<TableRecord> rec (get_record(nr));
-		if (image_count) {
+		if (image_count && blob_to_file) {
 			std::string filename = get_file_name_for_record(rec.get());
 			if (EqualIC(filename, recname)) {
 				repeat_count++;
@@ -2386,9 +2386,9 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 				s += "_";
 			}
 			Field* tmp_field = record.field;
-			std::string tmp_str = rec->get_string(tmp_field);
-
-			s += tmp_str;
+			if (!rec->is_null_value(tmp_field)) {
+				s += rec->get_string(tmp_field);
+			}
 		}
 	}
 
-- 
2.43.0


From caa2956e69aaba03978c7ef9c74461c1aed908dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 010/112] fix: count both digits of the first byte of unsigned
 packed decimals

---
 src/tool1cd/BinaryDecimalNumber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index b9ab394..ff9fc17 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -63,7 +63,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push2(first_byte);
 	}
 	++byte_data;
-	int i = 1;
+	int i = data.size();
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
-- 
2.43.0


From 5429517724ef400a15cc3caaf4af9089ae70acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 011/112] fix: do not cut a string inside a UTF-8 character
 when comparing its end

---
 src/tool1cd/SystemClasses/String.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index a8c8272..21e78be 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -178,7 +178,9 @@ bool EndsWithIC(const std::string &str, const std::string &substr)
 	if (str.size() < substr.size()) {
 		return false;
 	}
-	return CompareIC(str.substr(str.size() - substr.size(), substr.size()), substr) == 0;
+	string tail = LowerCase(str);
+	tail.erase(0, tail.size() - substr.size());
+	return Compare(tail, LowerCase(substr)) == 0;
 }
 
 int ToIntDef(const std::string &s, int default_value)
-- 
2.43.0


From ad8b861ed1512ab0c0bc3a3671bcd314c15ef7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 012/112] fix: escape every occurrence of markup characters in
 XML

---
 src/tool1cd/Common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..a14feab 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,11 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From daa38ae5e5b5d91c1ee9aae41de01a772ee1616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 013/112] fix: storage sizes over 2 GB in the table size report

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 204fd08..906edcf 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -46,7 +46,7 @@ const string DATABASE_CONFIG_DEFAULT_NAME() {
 	return string("dbcf") + CF_STR;
 }
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
-- 
2.43.0


From fbd80336a3900dd2914b396d3dea38fcdec21766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 014/112] fix: block header fields of containers are not
 NUL-terminated

---
 src/tool1cd/cfapi/APIcfBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index b18a80c..74b901b 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -33,7 +33,7 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 
 int32_t stBlockHeader::get_data_size() const {
 	string hex("0x");
-	hex.append(data_size_hex);
+	hex.append(data_size_hex, sizeof(data_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -49,7 +49,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 
 int32_t stBlockHeader::get_page_size() const {
 	string hex("0x");
-	hex.append(page_size_hex);
+	hex.append(page_size_hex, sizeof(page_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -65,7 +65,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 
 int32_t stBlockHeader::get_next_page_addr() const {
 	string hex("0x");
-	hex.append(next_page_addr_hex);
+	hex.append(next_page_addr_hex, sizeof(next_page_addr_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
-- 
2.43.0


From 30a0b53aac234a51a608ff70b740a189088a5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 015/112] fix: skip the byte order mark of parsed streams

---
 src/tool1cd/SystemClasses/TStreamReader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStreamReader.cpp b/src/tool1cd/SystemClasses/TStreamReader.cpp
index c4ca7a3..598075a 100644
--- a/src/tool1cd/SystemClasses/TStreamReader.cpp
+++ b/src/tool1cd/SystemClasses/TStreamReader.cpp
@@ -18,6 +18,8 @@
     You should have received a copy of the GNU Lesser General Public License
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
+#include <cstring>
+
 #include "TStreamReader.hpp"
 
 namespace System {
@@ -28,6 +30,14 @@ namespace Classes {
 TStreamReader::TStreamReader(TStream *stream, bool DetectBOM)
 	: stream(stream)
 {
+	if (DetectBOM) {
+		const uint8_t bom[] = {0xEF, 0xBB, 0xBF};
+		uint8_t head[sizeof(bom)];
+		auto start = stream->GetPosition();
+		if (stream->Read(head, sizeof(head)) != sizeof(head) || memcmp(head, bom, sizeof(bom)) != 0) {
+			stream->Seek(start, soFromBeginning);
+		}
+	}
 }
 
 int TStreamReader::Read()
-- 
2.43.0


From 39dce3b1b9619aec05772953e7be2aff047f62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 016/112] fix: take the whole identifier of a dynamic update

---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 81a66d8..1af1ce9 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -641,7 +641,7 @@ ConfigStorageTableConfig::ConfigStorageTableConfig(TableFiles* tabf, T_1CD* _bas
 		{
 			auto m = name.rfind(sdynupdate);
 			if (m != string::npos) {
-				string update_id = name.substr(m + lsdynupdate - 1, name.size() - m - lsdynupdate);
+				string update_id = name.substr(m + lsdynupdate);
 				name = name.substr(0, m);
 				BinaryGuid update_guid = BinaryGuid(update_id);
 				if (!dynup.empty()) {
-- 
2.43.0


From f9455eba6a8f05b65184d3a85d8e99aa32464130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 017/112] fix: keep the names of configuration files that
 contain a point

---
 src/tool1cd/ConfigStorage.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 1af1ce9..a412103 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -789,10 +789,10 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		pdel = del.find(LowerCase(s));
 		if(pdel != del.end()) continue;
 
-		m = s.rfind(spoint);
-		if (m != string::npos) {
-			name = s.substr(0, m - 1);
-			ext = s.substr(m + 1, s.size() - m);
+		auto point_pos = s.rfind(spoint);
+		if (point_pos != string::npos) {
+			name = s.substr(0, point_pos);
+			ext = s.substr(point_pos + 1);
 		}
 		else
 		{
@@ -805,10 +805,10 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		}
 		else dynno = -1;
 
-		m = name.find(sdynupdate);
-		if (m != string::npos) {
-			string s = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate + 1);
-			name = name.substr(0, m - 1);
+		auto update_pos = name.rfind(sdynupdate);
+		if (update_pos != string::npos) {
+			string s = name.substr(update_pos + lsdynupdate);
+			name = name.substr(0, update_pos);
 			string_to_GUID(s, &g);
 			if (!dynup.empty())
 			{
-- 
2.43.0


From f2bfae048d98d03d0216a8aae29fdd0e1c526c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 018/112] fix: drop removed files from the main configuration

---
 src/tool1cd/ConfigStorage.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index a412103..78680db 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -39,6 +39,7 @@ const int lsdynupdate = sdynupdate.size();
 extern Registrator msreg_g;
 
 std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt);
+std::vector<string> parse_list_tree(unique_ptr<Tree> tt);
 
 //********************************************************
 // Класс ConfigStorageDirectory
@@ -727,15 +728,15 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 				   + "\\" + tab->get_name()
 				   + "\\" + deleted.name;
 		auto tt = parse_1Cstream(deleted.stream, detail_path_name);
-		std::vector<BinaryGuid> dynup;
+		std::vector<string> deleted_names;
 		try {
-			dynup = parse_dynamically_updated_tree(std::move(tt));
+			deleted_names = parse_list_tree(std::move(tt));
 		} catch (DetailedException &ex) {
 			ex.add_detail("Путь", detail_path_name);
 			throw ex;
 		}
-		for (auto &guid : dynup) {
-			del.insert(LowerCase(guid.as_MS()));
+		for (auto &deleted_name : deleted_names) {
+			del.insert(LowerCase(deleted_name));
 		}
 	}
 
@@ -1130,6 +1131,16 @@ std::string ConfigStorageTableConfigCasSave::presentation() const
 }
 
 std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt)
+{
+	std::vector<BinaryGuid> dynup;
+	for (auto &value : parse_list_tree(std::move(tt))) {
+		dynup.emplace_back(BinaryGuid(value));
+	}
+	return dynup;
+}
+
+// {<число>,<количество>,<значение>,...}
+std::vector<string> parse_list_tree(unique_ptr<Tree> tt)
 {
 	if (!tt) {
 		throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
@@ -1153,15 +1164,13 @@ std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt)
 		throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
 	}
 
-	int ndynup = ToIntDef(ct->get_value(), 0);
-	std::vector<BinaryGuid> dynup;
-	dynup.reserve(ndynup);
-	if (ndynup > 0) {
-		dynup.reserve(ndynup);
-		while (ndynup--) {
-			ct = ct->get_next();
-			dynup.emplace_back(BinaryGuid(ct->get_value()));
+	std::vector<string> values;
+	for (int count = ToIntDef(ct->get_value(), 0); count > 0; --count) {
+		ct = ct->get_next();
+		if (!ct) {
+			throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
 		}
+		values.push_back(ct->get_value());
 	}
-	return dynup;
+	return values;
 }
-- 
2.43.0


From e44a42739b076efed9c992feb8cf43fc7b7f06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 019/112] fix: write defined values for absent objects in the
 root file of an exported table

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 2855d33..4edbc33 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1106,7 +1106,7 @@ void Table::export_table(const boost::filesystem::path &path) const
 		return;
 	}
 
-	export_import_table_root root;
+	export_import_table_root root = {};
 	if(file_data) {
 		root.has_data = true;
 		auto version = file_data->get_current_version();
-- 
2.43.0


From 02d298a36c0b659f61f3735d8a70fea19a73dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 020/112] fix: open and read tables whose storages exceed 4 GB

---
 src/tool1cd/Table.cpp    | 16 ++++++++--------
 src/tool1cd/V8Object.cpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 4edbc33..a6b8341 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -352,7 +352,7 @@ void Table::init(int32_t block_descr)
 	if(file_index)
 	{
 		m = file_index->get_len() / base->get_pagesize();
-		if(file_index->get_len() != m * base->get_pagesize())
+		if(file_index->get_len() % base->get_pagesize() != 0)
 		{
 			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
 				.add_detail("Таблица", name)
@@ -443,7 +443,7 @@ void Table::init(int32_t block_descr)
 
 	if(file_data)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		if(static_cast<uint64_t>(phys_numrecords) * recordlen != file_data->get_len())
 		{
 			throw DetailedException("Длина таблицы не кратна длине записи.")
 				.add_detail("Блок", to_hex_string(block_descr))
@@ -639,7 +639,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, static_cast<uint64_t>(phys_numrecord) * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -649,7 +649,7 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	tr_syn->BeginWrite();
 	#endif
 	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	char* b = file_data->get_data(buf, static_cast<uint64_t>(phys_numrecord) * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
@@ -732,7 +732,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -764,7 +764,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -805,7 +805,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -837,7 +837,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..1008df5 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1417,7 +1417,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 {
 	uint32_t _curblock;
 	char* _curb;
-	uint32_t _numblock;
+	uint64_t _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -1448,7 +1448,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, static_cast<uint64_t>(_curblock) << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
-- 
2.43.0


From 93eb4da148d11d798a73ac8d0c55b8f4ab226d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 021/112] fix: exit with an error code when an error was
 reported

---
 src/tool1cd/Messenger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b104b9b..db27ef0 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -44,6 +44,10 @@ void Messenger::Status(const string &message)
 //---------------------------------------------------------------------------
 void Messenger::AddDetailedMessage(const string &message, const MessageState mstate, const TStringList *param)
 {
+	if (mstate == MessageState::Error) {
+		has_error = true;
+	}
+
 	if (mstate < minimal_state) {
 		return;
 	}
-- 
2.43.0


From 773deac0e8c3f133601694ca1be403628e330d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 022/112] fix: finish the compressed stream when the source is
 empty or fills the buffer

---
 src/tool1cd/UZLib.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..e294dbc 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -61,9 +61,6 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
-			return false;
-		}
 		/* TODO: ZDeflateStream проверка ошибок */
 
 		flush = (strm.avail_in < CHUNKSIZE) ? Z_FINISH : Z_NO_FLUSH;
-- 
2.43.0


From 78482d245e110ada89473f41ec85a92d34cc01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 023/112] fix: dump of a repository version with an empty
 HISTORY table read through a null record

---
 src/tool1cd/save_depot_config.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 928026e..6dc737c 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -281,7 +281,7 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 			rech2 = table_history->get_record(num_rec);
 		}
 
-		if (rech2->get<BinaryGuid>(fldh_objid) != curobj || iHistory_Index == HistoryIndex_numrec) {
+		if (iHistory_Index == HistoryIndex_numrec || rech2->get<BinaryGuid>(fldh_objid) != curobj) {
 			// это новый объект или конец таблицы
 			if(!lastremoved)
 			{
@@ -359,7 +359,9 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 				}
 			}
 
-			curobj = rech2->get<BinaryGuid>(fldh_objid);
+			if (iHistory_Index < HistoryIndex_numrec) {
+				curobj = rech2->get<BinaryGuid>(fldh_objid);
+			}
 			lastremoved = true;
 		}
 
-- 
2.43.0


From a456b4e82f9521cf75b0bd9f2bf156be89843845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 024/112] fix: -dpc dropped the last digit of the first version
 of the range

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 906edcf..fb14dac 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -463,7 +463,7 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
 				, 0);
 		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter - 1)
+				.substr(0, splitter)
 				, 0);
 	} else {
 		begin_version = ToIntDef(version_number_param, 0);
-- 
2.43.0


From 7cf56fe52ff690de31854040b3241a9b75db6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 025/112] fix: partial repository dump compared objects through
 a null field and with the wrong buffer

---
 src/tool1cd/save_part_depot_config.cpp | 29 ++++++++++----------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a2dc786..5e580be 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -291,29 +291,22 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 								if(datapacked)
 								{
 									auto b = rech1->get<table_blob_file>(fldh_objdata);
-									if (!rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0)) {
-
+									auto b2 = rech2->get<table_blob_file>(fldh_objdata);
+									bool hasdata1 = !rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0);
+									bool hasdata2 = !rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0);
+									if (hasdata1 && hasdata2) {
 										table_history->readBlob(out, b.blob_start, b.blob_length);
-
-										auto b2 = rech2->get<table_blob_file>(fldh_objdata);
-										if (!rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0)) {
-										{
-											table_history->readBlob(out, b2.blob_start, b2.blob_length);
-											inreaded = true;
-											if (in->GetSize() == out->GetSize()) {
-												if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
-													changed = false;
-												}
+										table_history->readBlob(in, b2.blob_start, b2.blob_length);
+										inreaded = true;
+										if (in->GetSize() == out->GetSize()) {
+											if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
+												changed = false;
 											}
 										}
 									}
-									else if(depotVer >= depot_ver::Ver6)
+									else if (!hasdata1 && !hasdata2 && depotVer >= depot_ver::Ver6)
 									{
-										// TODO: тип под Datahash
-									}
-										if (memcmp(rech2->get_data(fldh_datahash)
-												, rech1->get_data(fldh_datahash)
-												, fldh_datahash->get_length()) == 0) {
+										if (rech1->get_string(fldh_datahash) == rech2->get_string(fldh_datahash)) {
 											changed = false;
 										}
 									}
-- 
2.43.0


From 47efad267ddfa0eeb0374d237b51b36db37f2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 026/112] fix: partial repository dump named objects by raw
 bytes instead of GUIDs

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 5e580be..c6ded90 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -255,7 +255,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 				if(hasrech2)
 				{
 					lastver = ToIntDef(rech2->get_string(fldh_vernum), numeric_limits<int32_t>::max());
-					string sObjId = rech2->get_string(fldh_objid);
+					string sObjId = rech2->get<BinaryGuid>(fldh_objid).as_MS();
 
 					hasext = true;
 					bool removed = rech2->get<bool>(fldh_removed);
-- 
2.43.0


From e059b844a2dbe32df6578a052e360b230a81b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 027/112] fix: list of deleted objects was written under the
 path of the database file

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index c6ded90..aea0c92 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -489,7 +489,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	delete sw;
 	if(hasdeleted)
 	{
-		f = new TFileStream(root_path / "deleted", fmCreate);
+		f = new TFileStream(filepath / "deleted", fmCreate);
 		f->CopyFrom(sd, 0);
 		delete f;
 	}
-- 
2.43.0


From d2e17f6c21b0484a777f0c88d5da0a8c6b6d425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 028/112] fix: partial repository dump listed objects removed
 before the range as deleted

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index aea0c92..0262ba6 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -260,7 +260,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 					hasext = true;
 					bool removed = rech2->get<bool>(fldh_removed);
 					if (removed) {
-						if(hasrech1)
+						if(hasrech1 && !rech1->get<bool>(fldh_removed))
 						{
 							sw->Write(sObjId + "\r\n");
 							hasdeleted = true;
-- 
2.43.0


From 1328688ba5c052f857a6e327b1f4ea20cf8a8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 029/112] fix: partial repository dump with an empty HISTORY
 table read through a null record

---
 src/tool1cd/save_part_depot_config.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 0262ba6..f5d2ffe 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -249,7 +249,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 			rech = table_history->get_record(i);
 		}
 
-		if (rech->get<BinaryGuid>(fldh_objid) != curobj || history_iterator == history_records)
+		if (history_iterator == history_records || rech->get<BinaryGuid>(fldh_objid) != curobj)
 		{ // это новый объект или конец таблицы
 			if(history_iterator)
 				if(hasrech2)
@@ -465,7 +465,9 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 					}
 				}
 
-			curobj = rech->get<BinaryGuid>(fldh_objid);
+			if (history_iterator < history_records) {
+				curobj = rech->get<BinaryGuid>(fldh_objid);
+			}
 			hasrech1 = false;
 			hasrech2 = false;
 		}
-- 
2.43.0


From 82ba565ddbcc2dcae3ee65b4341b97d7f48cdc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 030/112] fix: closing a file stream twice dereferenced a null
 pointer

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 790071d..b492052 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -76,8 +76,10 @@ void TFileStream::Reopen()
 
 void TFileStream::Close()
 {
-	_stream->close();
-	_stream.reset();
+	if (_stream) {
+		_stream->close();
+		_stream.reset();
+	}
 }
 
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
-- 
2.43.0


From d0adff2d14b5710808564b9a82eb9a42f8a0941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 031/112] fix: names of files of an opened container kept their
 terminating zeros

---
 src/tool1cd/cfapi/V8Catalog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6ba6e48..f53ca04 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -337,6 +337,7 @@ void V8Catalog::initialize()
 				// TODO: константы 20, 8
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
+				_name = _name.substr(0, _name.find('\0')); // за именем следуют завершающие нули
 				int64_t time_create = *(int64_t*)_temp_buf;
 				int64_t time_modify = *(int64_t*)_temp_buf + 8;
 
-- 
2.43.0


From 546cbd460d78fdc4a383f59a547fc3f5e9452138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 032/112] fix: modification time of files of an opened
 container was not read

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index f53ca04..69ed27b 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -339,7 +339,7 @@ void V8Catalog::initialize()
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
 				_name = _name.substr(0, _name.find('\0')); // за именем следуют завершающие нули
 				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)_temp_buf + 8;
+				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
 				delete[] _temp_buf;
-- 
2.43.0


From 287e65ca290daa84d220905405dcaeeb10152137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 033/112] fix: container with a damaged file header was read
 out of bounds

---
 src/tool1cd/cfapi/V8Catalog.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 69ed27b..6493c6d 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -24,6 +24,7 @@
 #include "V8Catalog.h"
 #include "../UZLib.h"
 #include "../Common.h"
+#include "../DetailedException.h"
 #include "../SystemClasses/String.hpp"
 
 using namespace std;
@@ -332,6 +333,10 @@ void V8Catalog::initialize()
 				read_block(data, elem_addr.header_addr, file_data.get());
 				file_data->Seek(0, soFromBeginning);
 				auto header_size = file_data->GetSize();
+				if (header_size < 20) {
+					throw DetailedException("Повреждён заголовок файла контейнера")
+							.add_detail("Размер заголовка", to_string(header_size));
+				}
 				_temp_buf = new char[header_size];
 				file_data->Read(_temp_buf, header_size);
 				// TODO: константы 20, 8
@@ -366,7 +371,7 @@ void V8Catalog::initialize()
 		iscatalogdefined = true;
 
 		first = nullptr;
-		last = nullptr;
+		_prev = nullptr;
 		zipped = false;
 
 	}
-- 
2.43.0


From ecfc3390ef510a52002a470040f1a067b96432e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 034/112] fix: files starting with a big number were not
 recognised as no container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 src/tool1cd/cfapi/V8File.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6493c6d..6c63f53 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -121,7 +121,7 @@ bool V8Catalog::is_catalog() const
 	data->Seek(0, soFromBeginning);
 	data->Read(&_startempty, 4);
 	if(_startempty != LAST_BLOCK){
-		if(_startempty + 31 >= _filelen)
+		if((int64_t)_startempty + 31 >= _filelen)
 		{
 			Lock->Release();
 			return false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 38846ed..67434d1 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -349,7 +349,7 @@ bool V8File::is_catalog()
 		data->Seek(0, soFromBeginning);
 		data->Read(&_startempty, 4);
 		if(_startempty != LAST_BLOCK){
-			if(_startempty + 31 >= _filelen){
+			if((int64_t)_startempty + 31 >= _filelen){
 				iscatalog = FileIsCatalog::no;
 				Lock->Release();
 				return false;
-- 
2.43.0


From 48c611ab9c18d34149c47c890d782e1619eb9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 035/112] fix: truncated compressed streams were taken for
 complete ones

---
 src/tool1cd/UZLib.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index e294dbc..c03d546 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -113,13 +113,21 @@ void ZInflateStream(TStream* src, TStream* dst)
 	strm.next_in  = Z_NULL;
 
 	ret = inflateInit2(&strm, -MAX_WBITS);
+	bool empty_source = true;
 
 	/* decompress until deflate stream ends or end of file */
 	do {
 		
 		strm.avail_in = static_cast<int>(src->Read(srcBuf.get(), CHUNKSIZE));
 
-		if (strm.avail_in == 0) break;
+		if (strm.avail_in == 0) {
+			if (empty_source) {
+				break;
+			}
+			(void)inflateEnd(&strm);
+			throw ZError( "Unexpected end of compressed data" );
+		}
+		empty_source = false;
 
 		strm.next_in = srcBuf.get();
 
-- 
2.43.0


From 9c13aa538333dad3062e75971449426faae062cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 036/112] fix: data that is not compressed was written after
 the output of the attempt to decompress it

---
 src/tool1cd/UZLib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index c03d546..9a7b24e 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -170,11 +170,14 @@ void ZInflateStream(TStream* src, TStream* dst)
 
 void ZInflateOrCopy(TStream *src, TStream *dst)
 {
+	auto dst_start = dst->GetPosition();
 	try {
 
 		ZInflateStream(src, dst);
 
 	} catch (ZError &) {
+		dst->SetSize(dst_start);
+		dst->Seek(dst_start, soFromBeginning);
 		dst->CopyFrom(src, 0);
 	}
 }
-- 
2.43.0


From dcbb8d5acd632d1ca636ffe66ae4f35dffc87db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 037/112] fix: paths of files inside containers lost the last
 character of each directory

---
 src/tool1cd/ConfigStorage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 78680db..90c731e 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -127,7 +127,7 @@ ConfigFile* ConfigStorageCFFile::readfile(const std::string &path)
 	V8Catalog* c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		V8File *f = c->get_file(fname.substr(0, i - 1));
+		V8File *f = c->get_file(fname.substr(0, i));
 		if(!f) {
 			return nullptr;
 		}
@@ -165,7 +165,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		c = c->CreateCatalog(fname.substr(0, i - 1));
+		c = c->CreateCatalog(fname.substr(0, i));
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
@@ -203,7 +203,7 @@ bool ConfigStorageCFFile::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 	V8File *f = cat->get_file(fname);
 	return f != nullptr;
@@ -423,7 +423,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 	{
 		auto i = fname.find("\\");
 		if (i != string::npos) {
-			top_level_name = fname.substr(0, i - 1);
+			top_level_name = fname.substr(0, i);
 			fname = fname.substr(i + 1, fname.size() - i - 1);
 		} else {
 			top_level_name = fname;
@@ -444,7 +444,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 		}
 		V8Catalog *parent_cat = top_file->cat;
 		for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\")) {
-			V8File *f = parent_cat->get_file(fname.substr(0, i - 1));
+			V8File *f = parent_cat->get_file(fname.substr(0, i));
 			if (!f) {
 				// TODO: бросить исключение???
 				return nullptr;
@@ -565,7 +565,7 @@ bool ConfigStorageTable::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 
 	return files.find(LowerCase(fname)) != files.end();
-- 
2.43.0


From ec1bc99c201b22e80579699a58e7786d1d5960d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 038/112] fix: names of files of an edited extension lost their
 last character

---
 src/tool1cd/ConfigStorage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 90c731e..e942026 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -1001,7 +1001,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 	{
 		if (EqualIC(ptf.first.substr(0, struid_len), struid)) {
 			TableFile *tf = ptf.second;
-			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len, tf->name.size() - struid_len - 1));
+			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len));
 			if (EqualIC(pcf->name, "configinfo")) {
 				configinfo = pcf;
 			}
@@ -1033,7 +1033,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 		files["configinfo"] = configinfo;
 	}
 	else {
-		config_info_path = present + "\\" + struid_len + "configinfo";
+		config_info_path = present + "\\" + struid + "configinfo";
 	}
 
 	configinfo->open();
-- 
2.43.0


From 24c72dc5d5a066af4dad28ddf9319436d4bcc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 039/112] fix: times of container entries were lost in
 conversions

---
 src/tool1cd/SystemClasses/System.cpp | 26 +++++++++++++++++++-------
 src/tool1cd/SystemClasses/System.hpp |  4 ++--
 src/tool1cd/cfapi/V8Time.cpp         |  7 ++++---
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 0653fa8..002b8b9 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -37,6 +37,17 @@ uint64_t UInt32x32To64(int64_t a, int64_t b)
 }
 
 
+//---------------------------------------------------------------------------
+// Обратное преобразование для gmtime
+static time_t utc_mktime(struct tm *ptm)
+{
+#ifdef _MSC_VER
+	return _mkgmtime(ptm);
+#else
+	return timegm(ptm);
+#endif // _MSC_VER
+}
+
 //---------------------------------------------------------------------------
 // Преобразование времени FILETIME to POSIX
 uint64_t FileTime_to_POSIX(System::FILETIME * pft)
@@ -46,11 +57,11 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 	date.HighPart = pft -> dwHighDateTime;
 	date.LowPart  = pft -> dwLowDateTime;
 
-	// 100-nanoseconds = milliseconds * 10000
-	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000;
+	// 100-nanoseconds = seconds * 10000000
+	adjust.QuadPart = SEC_TO_UNIX_EPOCH * WINDOWS_TICK;
 
 	// removes the diff between 1970 and 1601
-	date.QuadPart -= adjust.QuadPart;
+	date.QuadPart = static_cast<uint64_t>(date.QuadPart) - adjust.QuadPart;
 
 	// converts back from 100-nanoseconds to seconds
 	return date.QuadPart / 10000000;
@@ -61,7 +72,7 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 void UnixTimeToFileTime(time_t t, System::FILETIME * pft)
 {
 
-	uint64_t ll = UInt32x32To64(t, 10000000) + SEC_TO_UNIX_EPOCH;
+	uint64_t ll = (static_cast<uint64_t>(t) + SEC_TO_UNIX_EPOCH) * WINDOWS_TICK;
 
 	pft->dwLowDateTime = (uint32_t)ll;
 	pft->dwHighDateTime = ll >> 32;
@@ -83,7 +94,7 @@ bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpF
 	ttm.tm_wday  = 0; // возможно здесь что-то не то, надо проверять; days since Sunday - [0, 6] 
 	ttm.tm_yday  = 0; // возможно здесь что-то не то, надо проверять; days since January 1 - [0, 365]
 	
-	UnixTime = mktime(&ttm);
+	UnixTime = utc_mktime(&ttm); // системное время - всегда UTC
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -95,6 +106,7 @@ bool LocalFileTimeToFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	// TODO: реализовать кроссплатформенное преобразование локального системного файлового времени в универсальное (UTC) файловое время
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm *ptm  = gmtime(&rawtime);
+	ptm->tm_isdst = -1;
 	time_t UnixTime = mktime(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 	
@@ -107,7 +119,7 @@ bool FileTimeToLocalFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm * ptm = localtime(&rawtime);
-	time_t UnixTime = mktime(ptm);
+	time_t UnixTime = utc_mktime(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -118,7 +130,7 @@ void GetSystemTime(System::SYSTEMTIME * lpSystemTime)
 {
 	
 	time_t CurrTime = time(NULL);
-	tm *ttm = localtime(&CurrTime);
+	tm *ttm = gmtime(&CurrTime);
 
 	lpSystemTime->wYear   = ttm->tm_year + 1900;
 	lpSystemTime->wMonth  = ttm->tm_mon + 1;
diff --git a/src/tool1cd/SystemClasses/System.hpp b/src/tool1cd/SystemClasses/System.hpp
index 3f1df3c..8c4096b 100644
--- a/src/tool1cd/SystemClasses/System.hpp
+++ b/src/tool1cd/SystemClasses/System.hpp
@@ -61,11 +61,11 @@ typedef struct _SYSTEMTIME {
 typedef union _LARGE_INTEGER {
 	struct {
 		uint32_t LowPart;
-		long  HighPart;
+		int32_t HighPart;
 	};
 	struct {
 		uint32_t LowPart;
-		long  HighPart;
+		int32_t HighPart;
 	} u;
 	int64_t QuadPart;
 } LARGE_INTEGER;
diff --git a/src/tool1cd/cfapi/V8Time.cpp b/src/tool1cd/cfapi/V8Time.cpp
index b004260..a36b4db 100644
--- a/src/tool1cd/cfapi/V8Time.cpp
+++ b/src/tool1cd/cfapi/V8Time.cpp
@@ -55,10 +55,11 @@ FILETIME V8Time::to_file_time() const {
 	FILETIME local_file_time;
 	FILETIME result;
 
-	int64_t tmp = _data;
+	uint64_t tmp = _data;
 	tmp -= EPOCH_START_WIN;
 	tmp *= 1000;
-	*(int64_t*)&local_file_time = tmp;
+	local_file_time.dwLowDateTime = static_cast<uint32_t>(tmp);
+	local_file_time.dwHighDateTime = static_cast<uint32_t>(tmp >> 32);
 	LocalFileTimeToFileTime(&local_file_time, &result);
 
 	return result;
@@ -72,7 +73,7 @@ int64_t V8Time::inner_from_file_time(const FILETIME &value) {
 	FILETIME local_file_time;
 
 	FileTimeToLocalFileTime(&value, &local_file_time);
-	int64_t tmp = *(int64_t*)&local_file_time;
+	int64_t tmp = static_cast<int64_t>((static_cast<uint64_t>(local_file_time.dwHighDateTime) << 32) | local_file_time.dwLowDateTime);
 	tmp /= 1000;
 	tmp += EPOCH_START_WIN;
 
-- 
2.43.0


From d1feef45bd5386adca95550b9302025093ad839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 040/112] fix: a renamed file of a container was found by its
 old name only

---
 src/tool1cd/cfapi/V8File.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 67434d1..6719ae9 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -307,6 +307,14 @@ std::string V8File::get_full_name()
 // устанавливает имя
 void V8File::set_file_name(const string &_name)
 {
+	if(parent) {
+		V8Catalog::V8Files& files = parent->v8files();
+		auto it = files.find(LowerCase(name));
+		if(it != files.end() && it->second == this) {
+			files.erase(it);
+		}
+		files[LowerCase(_name)] = this;
+	}
 	name = _name;
 	is_headermodified = true;
 }
-- 
2.43.0


From 6787a4448efaced875ba0042fb076759d7986b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 041/112] fix: deleting a file of a container read the freed
 object

---
 src/tool1cd/cfapi/V8Catalog.cpp | 3 ++-
 src/tool1cd/cfapi/V8File.cpp    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6c63f53..95d3eb5 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -394,11 +394,12 @@ void V8Catalog::delete_file(const string &FileName)
 	V8File* f = first;
 	while(f)
 	{
+		V8File* next = f->get_next();
 		if (EqualIC(f->get_file_name(), FileName)) {
 			f->delete_file();
 			delete f;
 		}
-		f = f->get_next();
+		f = next;
 	}
 	Lock->Release();
 }
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 6719ae9..67daca9 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -466,6 +466,7 @@ void V8File::delete_file()
 	start_header = 0;
 	_datamodified = false;
 	is_headermodified = false;
+	Lock->Release();
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 15480b8430aad2f8b73fc58eca129d849a728859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 042/112] fix: destroying a file of a container with open
 streams

---
 src/tool1cd/cfapi/TV8FileStream.cpp |  4 ++--
 src/tool1cd/cfapi/V8File.cpp        | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/cfapi/TV8FileStream.cpp b/src/tool1cd/cfapi/TV8FileStream.cpp
index 3be2d65..100117d 100644
--- a/src/tool1cd/cfapi/TV8FileStream.cpp
+++ b/src/tool1cd/cfapi/TV8FileStream.cpp
@@ -32,8 +32,8 @@ TV8FileStream::TV8FileStream(V8File* f, bool ownfile) : TStream(), file(f), own(
 // декструктор
 TV8FileStream::~TV8FileStream()
 {
-	if(own) delete file;
-	else file->streams().erase(this);
+	file->streams().erase(this);
+	if(own && !file->get_destructed()) delete file;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 67daca9..17d77da 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -596,15 +596,21 @@ V8File::~V8File()
 
 	Lock->Acquire();
 	_destructed = true;
-	for(istreams = _streams.begin(); istreams != _streams.end(); ++istreams) {
-		delete *istreams;
+	while(!_streams.empty()) {
+		istreams = _streams.begin();
+		delete *istreams; // поток сам удаляет себя из списка
 	}
-	_streams.clear();
 
 	close();
 
 	if(parent)
 	{
+		V8Catalog::V8Files& files = parent->v8files();
+		auto it = files.find(LowerCase(name));
+		if(it != files.end() && it->second == this) {
+			files.erase(it);
+		}
+
 		if(next)
 		{
 			next->Lock->Acquire();
-- 
2.43.0


From cb18a169585b6fabab1a5acb8c410749f834f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 043/112] fix: changes of a file of a container that was not
 open were lost

---
 src/tool1cd/cfapi/V8File.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 17d77da..680e24a 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -74,19 +74,23 @@ System::FILETIME V8File::get_time_modify() const {
 // установить время создания
 void V8File::set_time_create(const System::FILETIME &file_time) {
 	_time_create.from_file_time(file_time);
+	is_headermodified = true;
 }
 
 void V8File::set_time_create(const V8Time &time) {
 	_time_create = time;
+	is_headermodified = true;
 }
 
 // установить время модификации
 void V8File::set_time_modify(const System::FILETIME &file_time) {
 	_time_modify.from_file_time(file_time);
+	is_headermodified = true;
 }
 
 void V8File::set_time_modify(const V8Time &time) {
 	_time_modify = time;
+	is_headermodified = true;
 }
 
 //---------------------------------------------------------------------------
@@ -499,7 +503,12 @@ void V8File::close(){
 
 	if(!parent) return;
 	Lock->Acquire();
-	if(!is_opened) return;
+	if(!is_opened && is_headermodified && !parent->data_empty()) open(); // есть несохраненные изменения
+	if(!is_opened)
+	{
+		Lock->Release();
+		return;
+	}
 
 	if( self && !self->is_destructed() ) {
 		delete self;
@@ -656,6 +665,7 @@ void V8File::flush()
 		Lock->Release();
 		return;
 	}
+	if(!is_opened && is_headermodified && !parent->data_empty()) open(); // есть несохраненные изменения
 	if(!is_opened)
 	{
 		Lock->Release();
-- 
2.43.0


From 279749b233e9fa03e01b94db5f703aea631a88b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 044/112] fix: writing over an empty block of a container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 95d3eb5..3b29d52 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -540,7 +540,9 @@ int V8Catalog::write_datablock(TStream* block, int start, bool _zipped, int len)
 		else
 		{
 			stream = new TMemoryStream;
-			stream->CopyFrom(block, len);
+			if(len > 0) {
+				stream->CopyFrom(block, len);
+			}
 			stream2 = new TMemoryStream;
 			stream->Seek(0, soFromBeginning);
 			ZDeflateStream(stream, stream2);
@@ -594,6 +596,7 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 	{
 		TMemoryStream* _ts = new TMemoryStream;
 		write_block(_ts, stFileHeader::size(), true);
+		delete _ts;
 	}
 
 	if(len == -1)
@@ -649,11 +652,14 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 
 		data->Seek(start, soFromBeginning);
 		data->WriteBuffer(&block_header, stBlockHeader::size());
-		data->CopyFrom(block, curlen);
+		if(curlen > 0) { // CopyFrom с нулевой длиной копирует поток целиком
+			data->CopyFrom(block, curlen);
+		}
 		if(addwrite) {
 			_t = new char [blocklen - len];
 			memset(_t, 0, blocklen - len);
 			data->WriteBuffer(_t, blocklen - len);
+			delete[] _t;
 			addwrite = false;
 		}
 
-- 
2.43.0


From 1825163a703c03e733f46e9eafeeeb1d1ec450ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 045/112] fix: table of contents not updated when the data of a
 file moves

---
 src/tool1cd/cfapi/V8File.cpp | 34 ++++++++++++++++++++++++++++------
 src/tool1cd/cfapi/V8File.h   |  3 +++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 680e24a..839fe86 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -496,6 +496,28 @@ bool V8File::open(){
 	return true;
 }
 
+//---------------------------------------------------------------------------
+// записать данные файла в каталог
+void V8File::write_data(TStream *stream, int length)
+{
+	int start = parent->write_datablock(stream, start_data, _selfzipped, length);
+	if(start != start_data) {
+		start_data = start;
+		parent->fatmodified(true);
+	}
+}
+
+//---------------------------------------------------------------------------
+// записать заголовок файла в каталог
+void V8File::write_header(TStream *stream)
+{
+	int start = parent->write_block(stream, start_header, false);
+	if(start != start_header) {
+		start_header = start;
+		parent->fatmodified(true);
+	}
+}
+
 //---------------------------------------------------------------------------
 // закрыть файл
 void V8File::close(){
@@ -521,7 +543,7 @@ void V8File::close(){
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				write_data(data);
 			}
 			if(is_headermodified)
 			{
@@ -533,7 +555,7 @@ void V8File::close(){
 				hs->Write(tb.data(), tb.size());
 				hs->Write(&zero4b, 4);
 
-				start_header = parent->write_block(hs, start_header, false);
+				write_header(hs);
 				delete hs;
 			}
 			parent->Release();
@@ -577,14 +599,14 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
 
 		parent->Acquire();
-		start_data = parent->write_datablock(Stream, start_data, _selfzipped, Length);
+		write_data(Stream, Length);
 		TMemoryStream hs;
 		_time_create.write_to_stream(&hs);
 		_time_modify.write_to_stream(&hs);
 		hs.Write(&_4bzero, 4);
 		hs.Write(wname.data(), wname.size());
 		hs.Write(&_4bzero, 4);
-		start_header = parent->write_block(&hs, start_header, false);
+		write_header(&hs);
 		parent->Release();
 	}
 	iscatalog = FileIsCatalog::unknown;
@@ -681,7 +703,7 @@ void V8File::flush()
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				write_data(data);
 				_datamodified = false;
 			}
 			if(is_headermodified)
@@ -694,7 +716,7 @@ void V8File::flush()
 				hs->Write(tb.data(), tb.size());
 				hs->Write(&zero4b, 4);
 
-				start_header = parent->write_block(hs, start_header, false);
+				write_header(hs);
 				delete hs;
 				is_headermodified = false;
 			}
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index fe2e869..25b74fe 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -127,6 +127,9 @@ private:
 	bool _selfzipped;        // Признак, что файл является запакованным независимо от признака zipped каталога
 	TV8FileStreams _streams;
 
+	void write_data(TStream *stream, int length = -1);
+	void write_header(TStream *stream);
+
 	inline bool try_open() { return (!is_opened) ? open() : true; }
 };
 
-- 
2.43.0


From 92bb4a16f0387c3eceb91110ac80d6a275a77757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 046/112] fix: reading a file of a container into a vector

---
 src/tool1cd/cfapi/TV8FileStream.cpp | 9 ++++++---
 src/tool1cd/cfapi/TV8FileStream.h   | 2 +-
 src/tool1cd/cfapi/V8File.cpp        | 2 +-
 src/tool1cd/cfapi/V8File.h          | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/cfapi/TV8FileStream.cpp b/src/tool1cd/cfapi/TV8FileStream.cpp
index 100117d..25aee0f 100644
--- a/src/tool1cd/cfapi/TV8FileStream.cpp
+++ b/src/tool1cd/cfapi/TV8FileStream.cpp
@@ -47,9 +47,12 @@ int64_t TV8FileStream::Read(void *Buffer, int64_t Count)
 
 //---------------------------------------------------------------------------
 // чтение буфера
-int TV8FileStream::Read(std::vector<uint8_t> Buffer, int Offset, int Count)
+int TV8FileStream::Read(std::vector<uint8_t> &Buffer, int Offset, int Count)
 {
-	int64_t r = file->read(Buffer, pos, Count);
+	if(Buffer.size() < static_cast<size_t>(Offset) + Count) {
+		Buffer.resize(static_cast<size_t>(Offset) + Count);
+	}
+	int64_t r = file->read(Buffer.data() + Offset, pos, Count);
 	pos += r;
 	return r;
 }
@@ -67,7 +70,7 @@ int64_t TV8FileStream::Write(const void *Buffer, int64_t Count)
 // запись буфера
 int TV8FileStream::Write(const std::vector<uint8_t> Buffer, int Offset, int Count)
 {
-	int64_t r = file->write(Buffer, pos, Count);
+	int64_t r = file->write(Buffer.data() + Offset, pos, Count);
 	pos += r;
 	return r;
 }
diff --git a/src/tool1cd/cfapi/TV8FileStream.h b/src/tool1cd/cfapi/TV8FileStream.h
index bec8ed8..9d333aa 100644
--- a/src/tool1cd/cfapi/TV8FileStream.h
+++ b/src/tool1cd/cfapi/TV8FileStream.h
@@ -31,7 +31,7 @@ public:
 	TV8FileStream(V8File* f, bool ownfile = false);
 	virtual ~TV8FileStream();
 	virtual int64_t Read(void *Buffer, int64_t Count) override;
-	virtual int Read(std::vector<uint8_t> Buffer, int Offset, int Count);
+	virtual int Read(std::vector<uint8_t> &Buffer, int Offset, int Count);
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
 	virtual int Write(const std::vector<uint8_t> Buffer, int Offset, int Count);
 	virtual int64_t Seek(const int64_t Offset, const TSeekOrigin Origin) override;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 839fe86..dcb545e 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -161,7 +161,7 @@ int64_t V8File::read(void* Buffer, int Start, int Length)
 
 //---------------------------------------------------------------------------
 // чтение
-int64_t V8File::read(std::vector<uint8_t> Buffer, int Start, int Length)
+int64_t V8File::read(std::vector<uint8_t> &Buffer, int Start, int Length)
 {
 	int64_t ret = 0l;
 	Lock->Acquire();
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index 25b74fe..2d1770f 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -53,7 +53,7 @@ public:
 	int64_t get_file_length();
 
 	int64_t read(void* Buffer, int Start, int Length);
-	int64_t read(std::vector<uint8_t> Buffer, int Start, int Length);
+	int64_t read(std::vector<uint8_t> &Buffer, int Start, int Length);
 
 	int64_t write(const void* Buffer, int Start, int Length);                           // дозапись/перезапись частично
 	int64_t write(std::vector<uint8_t> Buffer, int Start, int Length); // дозапись/перезапись частично
-- 
2.43.0


From 9f33d62f31859dbba12cb027809c0d556e8dba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 047/112] fix: positions of a stream over a file of a container

---
 src/tool1cd/cfapi/TV8FileStream.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/TV8FileStream.cpp b/src/tool1cd/cfapi/TV8FileStream.cpp
index 25aee0f..cf777d5 100644
--- a/src/tool1cd/cfapi/TV8FileStream.cpp
+++ b/src/tool1cd/cfapi/TV8FileStream.cpp
@@ -93,7 +93,10 @@ int64_t TV8FileStream::Seek(const int64_t Offset, const TSeekOrigin Origin)
 			}
 			break;
 		case soFromCurrent:
-			if(pos + Offset < len) {
+			if(pos + Offset < 0) {
+				pos = 0;
+			}
+			else if(pos + Offset < len) {
 				pos += Offset;
 			}
 			else {
@@ -102,8 +105,8 @@ int64_t TV8FileStream::Seek(const int64_t Offset, const TSeekOrigin Origin)
 			break;
 		case soFromEnd:
 			if(Offset <= 0) {
-				if(Offset <= len) {
-					pos = len - Offset;
+				if(-Offset <= len) {
+					pos = len + Offset;
 				}
 				else {
 					pos = 0;
-- 
2.43.0


From 83e9a1996f0be9a8eed08d0577fa69acc345b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 048/112] fix: a file of a container remembered whether it is a
 container after its content changed

---
 src/tool1cd/cfapi/V8File.cpp | 38 +++++++++++++++++-------------------
 src/tool1cd/cfapi/V8File.h   |  1 +
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index dcb545e..f927e1e 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -181,6 +181,19 @@ TV8FileStream* V8File::get_stream(bool own)
 	return new TV8FileStream(this, own);
 }
 
+//---------------------------------------------------------------------------
+// отметить изменение данных
+void V8File::before_write()
+{
+	_time_modify = V8Time::current_time();
+
+	is_headermodified = true;
+	_datamodified   = true;
+	if(!self) {
+		iscatalog = FileIsCatalog::unknown; // зависит от содержимого
+	}
+}
+
 //---------------------------------------------------------------------------
 // записать
 int64_t V8File::write(const void* Buffer, int Start, int Length) // дозапись/перезапись частично
@@ -190,10 +203,7 @@ int64_t V8File::write(const void* Buffer, int Start, int Length) // дозапи
 	if (!try_open()){
 		return ret;
 	}
-	_time_modify = V8Time::current_time();
-
-	is_headermodified = true;
-	_datamodified   = true;
+	before_write();
 	data->Seek(Start, soFromBeginning);
 	ret = data->Write(Buffer, Length);
 	Lock->Release();
@@ -210,10 +220,7 @@ int64_t V8File::write(std::vector<uint8_t> Buffer, int Start, int Length) // д
 	if (!try_open()){
 		return ret;
 	}
-	_time_modify = V8Time::current_time();
-
-	is_headermodified = true;
-	_datamodified   = true;
+	before_write();
 	data->Seek(Start, soFromBeginning);
 	ret = data->Write(Buffer, Length);
 	Lock->Release();
@@ -230,10 +237,7 @@ int64_t V8File::write(const void* Buffer, int Length) // перезапись ц
 	if (!try_open()) {
 		return ret;
 	}
-	_time_modify = V8Time::current_time();
-
-	is_headermodified = true;
-	_datamodified = true;
+	before_write();
 	if (data->GetSize() > Length) data->SetSize(Length);
 	data->Seek(0, soFromBeginning);
 	ret = data->Write(Buffer, Length);
@@ -251,10 +255,7 @@ int64_t V8File::write(TStream* Stream, int Start, int Length) // дозапис
 	if (!try_open()) {
 		return ret;
 	}
-	_time_modify = V8Time::current_time();
-
-	is_headermodified = true;
-	_datamodified   = true;
+	before_write();
 	data->Seek(Start, soFromBeginning);
 	ret = data->CopyFrom(Stream, Length);
 	Lock->Release();
@@ -271,10 +272,7 @@ int64_t V8File::write(TStream* Stream) // перезапись целиком
 	if (!try_open()) {
 		return ret;
 	}
-	_time_modify = V8Time::current_time();
-
-	is_headermodified = true;
-	_datamodified   = true;
+	before_write();
 	if (data->GetSize() > Stream->GetSize()) data->SetSize(Stream->GetSize());
 	data->Seek(0, soFromBeginning);
 	ret = data->CopyFrom(Stream, 0);
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index 2d1770f..bc4fe3a 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -127,6 +127,7 @@ private:
 	bool _selfzipped;        // Признак, что файл является запакованным независимо от признака zipped каталога
 	TV8FileStreams _streams;
 
+	void before_write();
 	void write_data(TStream *stream, int length = -1);
 	void write_header(TStream *stream);
 
-- 
2.43.0


From 585bce8c47cc7ba0721b1a3c653b7117cc5457b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 049/112] fix: a .cfu container kept the tail of its previous,
 longer content

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 10 ++++++++++
 src/tool1cd/SystemClasses/TFileStream.hpp |  1 +
 src/tool1cd/cfapi/V8Catalog.cpp           |  4 ++++
 3 files changed, 15 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index b492052..2967e58 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -82,6 +82,16 @@ void TFileStream::Close()
 	}
 }
 
+void TFileStream::SetSize(int64_t NewSize)
+{
+	Close();
+	boost::filesystem::resize_file(boost::filesystem::path(filename), NewSize);
+	Reopen();
+	if (m_position > m_size) {
+		m_position = m_size;
+	}
+}
+
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
 {
 	Reopen();
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index d018f3f..4d960c7 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -52,6 +52,7 @@ public:
 
 	virtual void Close() override;
 	virtual void Reopen();
+	virtual void SetSize(int64_t NewSize) override;
 	virtual int64_t Read(void *Buffer, int64_t Count) override;
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
 
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 3b29d52..40bfb2c 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -169,6 +169,8 @@ V8Catalog::V8Catalog(const string &name) // создать каталог из 
 		{
 			data->WriteBuffer(_EMPTY_CATALOG_TEMPLATE, stFileHeader::size());
 			cfu = new TFileStream(name, fmCreate);
+			data->Seek(0, soFromBeginning);
+			ZDeflateStream(data, cfu);
 		}
 		else
 		{
@@ -754,6 +756,7 @@ V8Catalog::~V8Catalog()
 			if(data && cfu && is_modified)
 			{
 				data->Seek(0, soFromBeginning);
+				cfu->SetSize(0);
 				cfu->Seek(0, soFromBeginning);
 				ZDeflateStream(data, cfu);
 			}
@@ -900,6 +903,7 @@ void V8Catalog::Flush()
 			if(data && cfu && is_modified)
 			{
 				data->Seek(0, soFromBeginning);
+				cfu->SetSize(0);
 				cfu->Seek(0, soFromBeginning);
 				ZDeflateStream(data, cfu);
 			}
-- 
2.43.0


From 297b50d93432b9e432bfd4cc959a12356bcf4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 050/112] fix: reading a block of a container with an empty
 page

---
 src/tool1cd/cfapi/V8Catalog.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 40bfb2c..9d032b1 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -62,7 +62,9 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	stream_to->CopyFrom(stream_from, readlen);
+	if(readlen > 0) { // CopyFrom с нулевой длиной копирует поток целиком
+		stream_to->CopyFrom(stream_from, readlen);
+	}
 
 	int32_t pos = readlen;
 
@@ -75,7 +77,9 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		stream_to->CopyFrom(stream_from, readlen);
+		if(readlen > 0) {
+			stream_to->CopyFrom(stream_from, readlen);
+		}
 		pos += readlen;
 	}
 
-- 
2.43.0


From 9156b63e6a69a8dfc1e3cbc5218139322050ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 051/112] fix: a container whose first free block is an empty
 one at its end was not recognised

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 src/tool1cd/cfapi/V8File.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 9d032b1..c1fa92c 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -125,7 +125,7 @@ bool V8Catalog::is_catalog() const
 	data->Seek(0, soFromBeginning);
 	data->Read(&_startempty, 4);
 	if(_startempty != LAST_BLOCK){
-		if((int64_t)_startempty + 31 >= _filelen)
+		if((int64_t)_startempty + 31 > _filelen)
 		{
 			Lock->Release();
 			return false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index f927e1e..dcd10cf 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -359,7 +359,7 @@ bool V8File::is_catalog()
 		data->Seek(0, soFromBeginning);
 		data->Read(&_startempty, 4);
 		if(_startempty != LAST_BLOCK){
-			if((int64_t)_startempty + 31 >= _filelen){
+			if((int64_t)_startempty + 31 > _filelen){
 				iscatalog = FileIsCatalog::no;
 				Lock->Release();
 				return false;
-- 
2.43.0


From a9f0058cbb850a5a09e74f799c22a3002f8e81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 052/112] fix: deeply nested bracket notation overflowed the
 stack

---
 src/tool1cd/Parse_tree.cpp | 60 ++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index b52466e..91cb2ce 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -69,7 +69,15 @@ Tree::Tree(const string &_value, const node_type _type, Tree *_parent)
 //---------------------------------------------------------------------------
 Tree::~Tree()
 {
-	while(last) delete last;
+	// без рекурсии, так как глубина вложенности не ограничена
+	Tree* t = this;
+	while(last)
+	{
+		while(t->last) t = t->last;
+		Tree* up = t->parent;
+		delete t;
+		t = up;
+	}
 	if(prev) prev->next = next;
 	if(next) next->prev = prev;
 	if(parent)
@@ -191,33 +199,26 @@ Tree& Tree::operator [](int _index)
 //---------------------------------------------------------------------------
 void Tree::outtext(std::string &text)
 {
-	node_type lt = node_type::nd_unknown;
-	TReplaceFlags _ReplaceAll = TReplaceFlags::rfReplaceAll;
+	// без рекурсии, так как глубина вложенности не ограничена
+	Tree* t = this;
 
-	if(num_subnode)
+	while(true)
 	{
-		if (!text.empty()) {
-			text += "\r\n";
-		}
-		text += "{";
-		Tree* t = first;
-		while(t)
+		if(t->num_subnode)
 		{
-			t->outtext(text);
-			lt = t->type;
-			t = t->next;
-			if(t) text += ",";
+			if (!text.empty()) {
+				text += "\r\n";
+			}
+			text += "{";
+			t = t->first;
+			continue;
 		}
-		if(lt == node_type::nd_list) text += "\r\n";
-		text += "}";
-	}
-	else
-	{
-		switch(type)
+
+		switch(t->type)
 		{
 			case node_type::nd_string:
 				text += "\"";
-				text += StringReplace(value, "\"", "\"\"", rfReplaceAll);
+				text += StringReplace(t->value, "\"", "\"\"", rfReplaceAll);
 				text += "\"";
 				break;
 			case node_type::nd_number:
@@ -228,11 +229,26 @@ void Tree::outtext(std::string &text)
 			case node_type::nd_binary2:
 			case node_type::nd_link:
 			case node_type::nd_binary_d:
-				text += value;
+				text += t->value;
 				break;
 			default:
 				break;
 		}
+
+		while(t != this && !t->next)
+		{
+			node_type lt = t->type;
+			t = t->parent;
+			if(lt == node_type::nd_list) text += "\r\n";
+			text += "}";
+		}
+
+		if(t == this) {
+			break;
+		}
+
+		text += ",";
+		t = t->next;
 	}
 }
 
-- 
2.43.0


From 4173203007fdd37cf367de072aebe93007a45f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 053/112] fix: an empty list was written as an empty value

---
 src/tool1cd/Parse_tree.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 91cb2ce..6001810 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -214,6 +214,14 @@ void Tree::outtext(std::string &text)
 			continue;
 		}
 
+		if(t->type == node_type::nd_list && t->value.empty())
+		{
+			if (!text.empty()) {
+				text += "\r\n";
+			}
+			text += "{}";
+		}
+
 		switch(t->type)
 		{
 			case node_type::nd_string:
-- 
2.43.0


From 8b7576e709bcfbd4dd24b7d4899d2888a7dd0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 054/112] fix: characters behind a zero byte in a value were
 not checked

---
 src/tool1cd/Parse_tree.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 6001810..29bfb2c 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -284,31 +284,31 @@ node_type classification_value(const std::string &value)
 		return node_type::nd_empty;
 	}
 
-	if(regex_match(value.c_str(), exp_number)) {
+	if(regex_match(value, exp_number)) {
 		return node_type::nd_number;
 	}
 
-	if(regex_match(value.c_str(), exp_number_exp)) {
+	if(regex_match(value, exp_number_exp)) {
 		return node_type::nd_number_exp;
 	}
 
-	if(regex_match(value.c_str(), exp_guid)) {
+	if(regex_match(value, exp_guid)) {
 		return node_type::nd_guid;
 	}
 
-	if(regex_match(value.c_str(), exp_binary)) {
+	if(regex_match(value, exp_binary)) {
 		return node_type::nd_binary;
 	}
 
-	if(regex_match(value.c_str(), exp_link)) {
+	if(regex_match(value, exp_link)) {
 		return node_type::nd_link;
 	}
 
-	if(regex_match(value.c_str(), exp_binary2)) {
+	if(regex_match(value, exp_binary2)) {
 		return node_type::nd_binary2;
 	}
 
-	if(regex_match(value.c_str(), exp_binary_d)) {
+	if(regex_match(value, exp_binary_d)) {
 		return node_type::nd_binary_d;
 	}
 
-- 
2.43.0


From 7fd25ca965f02c350ecc6553790ed4e2e4d4e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 055/112] fix: trees of malformed texts leaked

---
 src/tool1cd/Parse_tree.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 29bfb2c..4c895c9 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -315,9 +315,9 @@ node_type classification_value(const std::string &value)
 	return node_type::nd_unknown;
 }
 
-bool read_next_flow(TStreamReader *reader, int &index, char &sym)
+bool read_next_flow(TStreamReader &reader, int &index, char &sym)
 {
-	int data = reader->Read();
+	int data = reader.Read();
 	if (data == -1) {
 		return false;
 	}
@@ -343,20 +343,17 @@ bool read_next_flow(const string &source, int &index, char &sym)
 }
 
 template<typename flow_type>
-Tree* parse_flow(flow_type source, const std::string &path)
+unique_ptr<Tree> parse_flow(flow_type &source, const std::string &path)
 {
 	string cur_value;
 
-	Tree* ret;
-	Tree* t;
+	unique_ptr<Tree> ret(new Tree("", node_type::nd_list, nullptr));
+	Tree* t = ret.get();
 	int pos = 1;
 	char sym;
 
 	state_type state = state_type::s_value;
 
-	ret = new Tree("", node_type::nd_list, nullptr);
-	t = ret;
-
 	while (read_next_flow(source, pos, sym))  {
 		switch(state)
 		{
@@ -533,7 +530,7 @@ Tree* parse_flow(flow_type source, const std::string &path)
 						.add_detail("Путь", path);
 	}
 
-	if(t != ret)
+	if(t != ret.get())
 	{
 		throw DetailedException("Ошибка формата потока. Не хватает закрывающих скобок } в конце текста разбора.")
 						.add_detail("Путь", path);
@@ -544,15 +541,14 @@ Tree* parse_flow(flow_type source, const std::string &path)
 
 unique_ptr<Tree> parse_1Cstream(TStream *str, const string &path)
 {
-	unique_ptr<Tree> result( parse_flow(new TStreamReader(str, true), path) );
-	return result;
+	TStreamReader reader(str, true);
+	return parse_flow(reader, path);
 }
 
 
 unique_ptr<Tree> parse_1Ctext(const string &text, const string &path)
 {
-	unique_ptr<Tree> result( parse_flow(text, path) );
-	return result;
+	return parse_flow(text, path);
 }
 
 string outtext(Tree *t)
-- 
2.43.0


From 32033c75950d25945edb277096233d9b738b4a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 056/112] fix: a long row of digits in bracket notation ended
 in a foreign exception

---
 src/tool1cd/Parse_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 4c895c9..c5c113b 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -30,7 +30,7 @@ using namespace System;
 using namespace std;
 
 const boost::regex exp_number("^-?\\d+$");
-const boost::regex exp_number_exp("^-?\\d+(\\.?\\d*)?((e|E)-?\\d+)?$");
+const boost::regex exp_number_exp("^-?\\d+(\\.\\d*)?((e|E)-?\\d+)?$");
 const boost::regex exp_guid("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$");
 const boost::regex exp_binary("^#base64:[0-9a-zA-Z\\+=\\r\\n\\/]*$");
 const boost::regex exp_binary2("^[0-9a-zA-Z\\+=\\r\\n\\/]+$");
-- 
2.43.0


From bf556ab1bbd0892fbe06a0cb1fdb340ee42edb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 057/112] fix: a number given as text lost its sign, was
 shifted by a missing precision and overflowed a buffer

---
 src/tool1cd/BinaryDecimalNumber.cpp | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index ff9fc17..0c526d0 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include "BinaryDecimalNumber.h"
+#include <algorithm>
 #include <map>
 #include <vector>
 #include <array>
@@ -82,22 +83,32 @@ BinaryDecimalNumber::BinaryDecimalNumber(const std::string &presentation, bool h
 	const int INT_PART  = 0;
 	const int FRAC_PART = 1;
 	std::array< std::vector<int>, 2> parts;
-	int part_no = 0;
+	int part_no = INT_PART;
 
 	for (char c : presentation) {
-		if (c == '.') {
-			part_no++;
-		} else {
+		if (c == '-') {
+			sign = -1;
+		} else if (c == '.') {
+			part_no = FRAC_PART;
+		} else if (c >= '0' && c <= '9') {
 			parts[part_no].push_back(c - '0');
 		}
 	}
 
-	if (precision != 0) {
+	if (length != 0 || precision != 0) {
 		parts[FRAC_PART].resize(precision);
+	} else {
+		this->precision = parts[FRAC_PART].size();
+	}
+	if (length != 0) {
+		// ведущие нули не занимают места
+		auto &int_part = parts[INT_PART];
+		auto significant = std::find_if(int_part.begin(), int_part.end(), [](int digit) { return digit != 0; });
+		int_part.erase(int_part.begin(), significant);
 	}
 	int add_length = 0;
 	if (length != 0) {
-		add_length = length - parts[INT_PART].size() - parts[FRAC_PART].size();
+		add_length = length - static_cast<int>(parts[INT_PART].size()) - static_cast<int>(parts[FRAC_PART].size());
 		if (add_length < 0) {
 			parts[INT_PART].clear();
 			parts[INT_PART].resize(length - precision, 9); // забиваем девяточками при превышении размера
@@ -188,9 +199,12 @@ void BinaryDecimalNumber::write_to(void *raw_data) const
 	uint8_t *byte_data = (uint8_t *)raw_data;
 	auto it = data.begin();
 	if (has_sing_flag) {
-		*byte_data = (sign == -1 ? 0 : 0x10) | *it;
+		*byte_data = (sign == -1 ? 0 : 0x10);
+		if (it != data.end()) {
+			*byte_data |= *it;
+			it++;
+		}
 		byte_data++;
-		it++;
 	}
 	while (it != data.end()) {
 		uint8_t ddMMyyyy_presentation = *it << 4;
-- 
2.43.0


From 19113615d36c5796288aca56e51f57dce404055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 058/112] fix: a date given as text with other characters than
 digits shifted negative values

---
 src/tool1cd/BinaryDecimalNumber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 0c526d0..31db2b4 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -238,7 +238,7 @@ BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std:
 	}
 	for (auto part : {'y', 'M', 'd', 'h', 'm', 's'}) {
 		for (auto i : indexes[part]) {
-			if (i < presentation.size()) {
+			if (i < presentation.size() && presentation[i] >= '0' && presentation[i] <= '9') {
 				data.push_back(presentation[i] - '0');
 			} else {
 				data.push_back(0);
-- 
2.43.0


From a6e6cee140794f4c5faf350434b4358af6fff088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 059/112] fix: a packed number of one digit without sign was
 read as two digits

---
 src/tool1cd/BinaryDecimalNumber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 31db2b4..c538395 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -60,6 +60,8 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 			sign = -1;
 		}
 		builder.push1(first_byte & 0x0f);
+	} else if (length == 1) {
+		builder.push1(first_byte >> 4);
 	} else {
 		builder.push2(first_byte);
 	}
-- 
2.43.0


From abcbd9f342feb766d4d771db0288a5bd3f6a1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 060/112] fix: text of a binary field was converted from its
 second character on

---
 src/tool1cd/FieldType.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 6f38554..dff7f32 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -312,38 +312,41 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 			if(value.size() == 0) {
 				break;
 			}
-			int32_t j = 1;
-			if(length == GUID_BINARY_SIZE && showGUID) // TODO Надо доделать для showGUIDasMS
+			auto next_byte = [&value](size_t &position) {
+				auto high = from_hex_digit(value[position]);
+				auto low = from_hex_digit(value[position + 1]);
+				position += 2;
+				return static_cast<unsigned char>((high << 4) + low);
+			};
+			size_t j = 0;
+			if(length == GUID_BINARY_SIZE && value.size() >= GUID_LEN) // TODO Надо доделать для showGUIDasMS
 			{
-				if(value.size() < GUID_LEN) {
-					break;
-				}
 				for(int32_t ind = 12; ind < GUID_BINARY_SIZE; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = next_byte(j);
 				}
 				j++;
 				for(int32_t ind = 10; ind < 12; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = next_byte(j);
 				}
 				j++;
 				for(int32_t ind = 8; ind < 10; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = next_byte(j);
 				}
 				j++;
 				for(int32_t ind = 0; ind < 2; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = next_byte(j);
 				}
 				j++;
 				for(int32_t ind = 2; ind < 8; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = next_byte(j);
 				}
 			}
 			else {
-				if(value.size() < length * 2) {
+				if(value.size() < static_cast<size_t>(length) * 2) {
 					break;
 				}
 				for(int32_t ind = 0; ind < length; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = next_byte(j);
 				}
 			}
 			break;
-- 
2.43.0


From bd136aeb10abc5c7d8f6fd58d14e3661b46b2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 061/112] fix: text of a string field was stored as UTF-8 and
 read beyond its end

---
 src/tool1cd/FieldType.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index dff7f32..11839a7 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -632,17 +632,19 @@ bool CommonFieldType::get_binary_value(char *binary_value, const string &value)
 		}
 
 		case type_fields::tf_char: {
-			int32_t i = std::min(value.size(), (size_t)length);
-			memcpy(fr, value.c_str(), i << 1);
+			auto units = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(units.size() / sizeof(WCHART), (size_t)length);
+			std::copy(units.begin(), units.begin() + i * sizeof(WCHART), fr);
 			while(i < length) {
 				((WCHART*)fr)[i++] = L' ';
 			}
 			break;
 		}
 		case type_fields::tf_varchar: {
-			int32_t i = std::min(value.size(), (size_t)length);
+			auto units = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(units.size() / sizeof(WCHART), (size_t)length);
 			*(int16_t*)fr = i;
-			memcpy(fr + 2, value.c_str(), i * 2);
+			std::copy(units.begin(), units.begin() + i * sizeof(WCHART), fr + 2);
 			while(i < length) {
 				((WCHART*)(fr + 2))[i++] = L' ';
 			}
-- 
2.43.0


From 81c8ce817a8cf621bd892e069a0e81e502b0a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 062/112] fix: numbers beyond the range of int ended in an
 exception

---
 src/tool1cd/SystemClasses/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index 21e78be..84d85c7 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -189,6 +189,8 @@ int ToIntDef(const std::string &s, int default_value)
 		return stoi(s);
 	} catch (const invalid_argument &) {
 		return default_value;
+	} catch (const out_of_range &) {
+		return default_value;
 	}
 }
 
-- 
2.43.0


From b8564a15e9fd90d346d56b91b23c64eaaad0c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 063/112] fix: an error while opening the database ended the
 program by an uncaught exception

---
 src/ctool1cd/App.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index fb14dac..f30dc7f 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -593,7 +593,21 @@ int App::Run()
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
 
-	base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	try {
+		base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	}
+	catch (DetailedException &ex) {
+		ex.show();
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
+	catch (Exception &ex) {
+		msreg_g.AddError(ex.Message());
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
+	catch (exception &ex) {
+		msreg_g.AddError(ex.what());
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
 
 	if (base1CD->is_open()) {
 		msreg_g.AddMessage ("База данных 1CD открыта", MessageState::Succesfull)
-- 
2.43.0


From 0a33c1cdc6e589682148f252a4b127be675045ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 064/112] fix: an object that could not be read stayed in the
 list of objects

---
 src/tool1cd/V8Object.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 1008df5..acccd76 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -79,12 +79,6 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	base = _base;
 	lockinmemory = false;
 
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
-
 	if(blockNum == 1)
 	{
 		if(base->get_version() < db_ver::ver8_3_8_0) type = v8objtype::free80;
@@ -262,6 +256,12 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		delete[] b;
 	}
 
+	// в список объект попадает только после успешного чтения, иначе в списке остался бы уже не существующий объект
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
 
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
-- 
2.43.0


From 43a4c21b1ec9748e023bce7d802304d13964a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 065/112] fix: lengths of objects were not checked against
 their allocation tables and the file

---
 src/tool1cd/Class_1CD.cpp |   5 ++
 src/tool1cd/Class_1CD.h   |   1 +
 src/tool1cd/V8Object.cpp  | 104 +++++++++++++++++++++++---------------
 3 files changed, 68 insertions(+), 42 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..9d609ea 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -2194,6 +2194,11 @@ uint32_t T_1CD::get_pagesize() const
 	return pagesize;
 }
 
+uint64_t T_1CD::get_filesize() const
+{
+	return static_cast<uint64_t>(length) * pagesize;
+}
+
 //---------------------------------------------------------------------------
 TableFiles* T_1CD::get_files_config()
 {
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 534e81a..1ceb18e 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -243,6 +243,7 @@ public:
 	std::string get_filename() const;
 	const boost::filesystem::path &get_filepath() const;
 	uint32_t get_pagesize() const;
+	uint64_t get_filesize() const; // размер файла базы в байтах
 
 	SupplierConfigs& supplier_configs();
 
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index acccd76..0426932 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -18,6 +18,8 @@
     You should have received a copy of the GNU Lesser General Public License
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
+#include <algorithm>
+#include <memory>
 #include <stdexcept>
 #include "V8Object.h"
 #include "Common.h"
@@ -93,6 +95,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	if(type == v8objtype::data80 || type == v8objtype::free80)
 	{
 		fatlevel = 1;
+		const uint32_t maxblocks = sizeof(v8ob::blocks) / sizeof(uint32_t);
 		v8ob* t = new v8ob;
 		base->get_block(t, blockNum);
 		if(memcmp(&(t->sig), SIG_OBJ, 8) != 0)
@@ -122,7 +125,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 			// numblocks - кол-во блоков с реальными данными
 			// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-			while(t->blocks[real_numblocks]) real_numblocks++;
+			while(real_numblocks < maxblocks && t->blocks[real_numblocks]) real_numblocks++;
 			if(real_numblocks > 0)
 			{
 				blocks.clear();
@@ -140,6 +143,15 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			} else {
 				numblocks = 0;
 			}
+			if(numblocks > maxblocks || len > base->get_filesize())
+			{
+				auto wrong_len = len;
+				delete t;
+				init();
+				throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum))
+					.add_detail("Длина", wrong_len);
+			}
 
 			if(numblocks > 0) {
 				blocks.clear();
@@ -193,12 +205,21 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				numblocks = (len - 1) / base->get_pagesize() + 1;
 			}
 			else {
-				numblocks = (len - 1) / (base->get_pagesize() / 4 * base->get_pagesize()) + 1;
+				numblocks = (len - 1) / (static_cast<uint64_t>(base->get_pagesize()) / 4 * base->get_pagesize()) + 1;
 			}
 		}
 		else {
 			numblocks = 0;
 		}
+		if(numblocks > base->get_pagesize() / 4 - 6 || len > base->get_filesize())
+		{
+			auto wrong_len = len;
+			delete[] b;
+			init();
+			throw DetailedException("Ошибка получения файла из страницы. Длина файла больше допустимой.")
+				.add_detail("Блок", to_hex_string(blockNum))
+				.add_detail("Длина файла", wrong_len);
+		}
 
 		if(numblocks > 0) {
 			blocks.clear();
@@ -242,7 +263,8 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 		// numblocks - кол-во блоков с реальными данными
 		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-		while(t->blocks[real_numblocks]) real_numblocks++;
+		const uint32_t maxblocks = (base->get_pagesize() - (sizeof(v838ob_free) - sizeof(v838ob_free::blocks))) / sizeof(uint32_t);
+		while(real_numblocks < maxblocks && t->blocks[real_numblocks]) real_numblocks++;
 		if(real_numblocks > 0) {
 			blocks.clear();
 			blocks.resize(real_numblocks);
@@ -320,37 +342,51 @@ char* V8Object::get_data()
 	if(!len) return nullptr;
 	if(data) return data;
 
+	std::unique_ptr<char[]> new_data;
+
 	if(type == v8objtype::free80)
 	{
+		if(len > blocks.size() * 0x400)
+		{
+			throw DetailedException("Ошибка чтения таблицы свободных блоков. Размещено меньше данных, чем длина таблицы.")
+				.add_detail("Длина таблицы", len);
+		}
 		l = len * 4;
-		data = new char[l];
-		tt = data;
+		new_data.reset(new char[l]);
+		tt = new_data.get();
 		i = 0;
 		while(l > DEFAULT_PAGE_SIZE)
 		{
-			base->get_block(tt, blocks[i++]);
+			base->get_block(tt, blocks.at(i++));
 			tt += DEFAULT_PAGE_SIZE;
 			l -= DEFAULT_PAGE_SIZE;
 		}
-		base->get_block(tt, blocks[i], l);
+		base->get_block(tt, blocks.at(i), l);
 	}
 	else if(type == v8objtype::data80)
 	{
 		l = len;
-		data = new char[l];
-		tt = data;
+		new_data.reset(new char[l]);
+		tt = new_data.get();
 		for(i = 0; i < numblocks; i++)
 		{
 			b = (objtab*)base->get_block(blocks[i]);
-			for(j = 0; j < b->numblocks; j++)
+			for(j = 0; j < std::min(b->numblocks, 1023); j++)
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
 				l -= curlen;
+				if(l == 0) break;
 				tt += DEFAULT_PAGE_SIZE;
 			}
-			if(l <= curlen) break;
+			if(l == 0) break;
+		}
+		if(l > 0)
+		{
+			throw DetailedException("Ошибка чтения объекта. Размещено меньше данных, чем длина объекта.")
+				.add_detail("Номер блока объекта", to_hex_string(block))
+				.add_detail("Длина объекта", len)
+				.add_detail("Не размещено", l);
 		}
 	}
 	else if(type == v8objtype::data838)
@@ -358,8 +394,8 @@ char* V8Object::get_data()
 		pagesize = base->get_pagesize();
 		blocksperpage = pagesize / 4;
 		ll = len;
-		data = new char[ll];
-		tt = data;
+		new_data.reset(new char[ll]);
+		tt = new_data.get();
 		if(fatlevel)
 		{
 			for(i = 0; i < numblocks; i++)
@@ -392,6 +428,7 @@ char* V8Object::get_data()
 	{
 		// TODO: реализовать V8Object::getdata() для файла свободных страниц формата 8.3.8
 	}
+	data = new_data.release();
 	return data;
 }
 
@@ -412,20 +449,21 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
+	if(_start > get_len() || _length > get_len() - _start)
+	{
+		throw DetailedException("Попытка чтения данных за пределами объекта")
+			.add_detail("Номер блока объекта", to_hex_string(block))
+			.add_detail("Длина объекта", get_len())
+			.add_detail("Начало читаемых данных", _start)
+			.add_detail("Длина читаемых данных", _length);
+	}
+	if(_length == 0) return (char*)buf;
+
 	if(data) memcpy(buf, data + _start, _length);
 	else
 	{
 		if(type == v8objtype::free80)
 		{
-			if(_start + _length > len * 4)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len * 4)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start >> 12;
 			_buf = (char*)buf;
 			curoffblock = _start - (curblock << 12);
@@ -433,7 +471,7 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 			while(_length)
 			{
-				_bu = base->get_block(blocks[curblock++]);
+				_bu = base->get_block(blocks.at(curblock++));
 				if(!_bu) {
 					return nullptr;
 				}
@@ -447,15 +485,6 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 		}
 		else if(type == v8objtype::data80)
 		{
-			if(_start + _length > len)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start >> 12;
 			_buf = (char*)buf;
 			curoffblock = _start - (curblock << 12);
@@ -490,15 +519,6 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 		}
 		else if(type == v8objtype::data838)
 		{
-			if(_start + _length > len)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start / base->get_pagesize();
 			_buf = (char*)buf;
 			offsperpage = base->get_pagesize() / 4;
-- 
2.43.0


From fcf660add5f4ed23eabcff2b7556fac0645d0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 066/112] fix: a cyclic chain of BLOB blocks was read for ever,
 a long one beyond the buffer

---
 src/tool1cd/Table.cpp    | 25 ++++++++++++++++++-------
 src/tool1cd/V8Object.cpp | 11 ++++++++---
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index a6b8341..d3feef2 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -730,9 +730,10 @@ void Table::set_lock_inmemory(bool _lock)
 TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length, bool rewrite) const
 {
 	uint32_t _curblock;
-	char* _curb;
+	alignas(8) char _curb[0x100];
 	uint16_t _curlen;
 	uint64_t _filelen, _numblock;
+	uint64_t _blocks = 0;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -753,7 +754,6 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 				.add_detail("Таблица", name)
 				.add_detail("Длина файла", to_hex_string(_filelen));
 
-		_curb = new char[0x100];
 		_curblock = _startblock;
 		while(_curblock)
 		{
@@ -764,6 +764,12 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
+			if(++_blocks > _numblock)
+			{
+				throw DetailedException("Зацикливание блоков файла Blob")
+					.add_detail("Таблица", name)
+					.add_detail("Начальный блок", _startblock);
+			}
 			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
@@ -778,7 +784,6 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 
 			if(_str->GetSize() - startlen > _length) break; // аварийный выход из возможного ошибочного зацикливания
 		}
-		delete[] _curb;
 
 		if(_str->GetSize() - startlen != _length)
 		{
@@ -802,10 +807,11 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) const
 {
 	uint32_t _curblock;
-	char* _curb;
+	alignas(8) char _curb[0x100];
 	char* _buf;
 	uint16_t _curlen;
 	uint64_t _filelen, _numblock;
+	uint64_t _blocks = 0;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -826,7 +832,6 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Длина файла", to_hex_string(_filelen));
 		}
 
-		_curb = new char[0x100];
 		_curblock = _startblock;
 		while(_curblock)
 		{
@@ -837,6 +842,12 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
+			if(++_blocks > _numblock)
+			{
+				throw DetailedException("Зацикливание блоков файла Blob")
+					.add_detail("Таблица", name)
+					.add_detail("Начальный блок", _startblock);
+			}
 			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
@@ -847,13 +858,13 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
+			if(_curlen > _length - readed) _curlen = _length - readed; // данных больше, чем указано в записи
 			memcpy(_buf, _curb + 6, _curlen);
 			_buf += _curlen;
 			readed += _curlen;
 
-			if(readed > _length) break; // аварийный выход из возможного ошибочного зацикливания
+			if(readed == _length) break;
 		}
-		delete[] _curb;
 
 		if(readed != _length)
 		{
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 0426932..c14df46 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1436,8 +1436,9 @@ uint32_t V8Object::get_block_number() const
 TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length, bool rewrite)
 {
 	uint32_t _curblock;
-	char* _curb;
+	alignas(8) char _curb[0x100];
 	uint64_t _numblock;
+	uint64_t _readed = 0;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -1457,7 +1458,6 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 			.add_detail("Длина файла", to_hex_string(len));
 	}
 
-	_curb = new char[0x100];
 	_curblock = _startblock;
 	while(_curblock)
 	{
@@ -1468,6 +1468,12 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
+		if(++_readed > _numblock)
+		{
+			throw DetailedException("Зацикливание блоков файла Blob")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Начальный блок", _startblock);
+		}
 		get_data(_curb, static_cast<uint64_t>(_curblock) << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
@@ -1482,7 +1488,6 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 
 		if(_str->GetSize() - startlen > _length) break; // аварийный выход из возможного ошибочного зацикливания
 	}
-	delete[] _curb;
 
 	if(_length != UINT_MAX) if(_str->GetSize() - startlen != _length)
 	{
-- 
2.43.0


From cf12d9964f42863cf99c0bf4bc6e5e4a72d5d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 067/112] fix: the header of the database and its list of
 tables were not checked

---
 src/tool1cd/Class_1CD.cpp | 54 +++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 9d609ea..8043fb0 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <algorithm>
 #include <vector>
 #include "SystemClasses/System.IOUtils.hpp"
 #include <boost/filesystem.hpp>
@@ -232,6 +233,32 @@ T_1CD::T_1CD(const boost::filesystem::path &_filename, MessageRegistrator *mess,
 	open(_filename, _monopoly);
 }
 
+//---------------------------------------------------------------------------
+// проверка, что корневой объект содержит все указанные в нём номера таблиц
+template<typename root_type>
+static void check_root(const root_type *root, uint64_t root_length)
+{
+	const uint64_t header_length = sizeof(root_type) - sizeof(root->blocks);
+	if(!root || root_length < header_length
+		|| root->numblocks < 0
+		|| static_cast<uint64_t>(root->numblocks) > (root_length - header_length) / sizeof(root->blocks[0]))
+	{
+		throw DetailedException("Ошибка чтения корневого объекта. Длина корневого объекта меньше необходимой")
+			.add_detail("Длина корневого объекта", root_length);
+	}
+}
+
+//---------------------------------------------------------------------------
+template<size_t size>
+static char* copy_lang(const char (&lang)[size])
+{
+	auto length = std::find(lang, lang + size, '\0') - lang;
+	char *result = new char[length + 1];
+	std::copy(lang, lang + length, result);
+	result[length] = '\0';
+	return result;
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 {
@@ -259,8 +286,8 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		throw DetailedException("Ошибка открытия файла базы (файл открыт другой программой?)");
 	}
 
-	v8con* cont = new v8con;
-	base_file->Read(cont, sizeof(v8con));
+	std::unique_ptr<v8con> cont(new v8con());
+	base_file->Read(cont.get(), sizeof(v8con));
 
 	if(memcmp(&(cont->sig), SIG_CON, 8) != 0)
 	{
@@ -300,6 +327,10 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		if(pagesize < DEFAULT_PAGE_SIZE || pagesize > PAGE_SIZE_64K || (pagesize & (pagesize - 1)))
+		{
+			throw DetailedException("Недопустимый размер страницы").add_detail("Размер страницы", pagesize);
+		}
 	}
 	else
 	{
@@ -334,14 +365,9 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 	if(version == db_ver::ver8_0_3_0 || version == db_ver::ver8_0_5_0)
 	{
 		root80 = (root_80*)root_object->get_data();
+		check_root(root80, root_object->get_len());
 
-		locale = new char[strlen(root80->lang) + 1];
-
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root80->lang) + 1, root80->lang);
-#else
-		strcpy(locale, root80->lang);
-#endif
+		locale = copy_lang(root80->lang);
 
 		num_tables = root80->numblocks;
 		table_blocks = &(root80->blocks[0]);
@@ -352,6 +378,7 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		{
 			tstr = new TMemoryStream;
 			root_object->readBlob(tstr, 1);
+			check_root((root_81*)tstr->GetMemory(), tstr->GetSize());
 			b = new char[tstr->GetSize()];
 			memcpy(b, tstr->GetMemory(), tstr->GetSize());
 			root81 = (root_81*)b;
@@ -359,14 +386,10 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		else
 		{
 			root81 = (root_81*)root_object->get_data();
+			check_root(root81, root_object->get_len());
 		}
 
-		locale = new char[strlen(root81->lang) + 1];
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root81->lang) + 1, root81->lang);
-#else
-		strcpy(locale, root81->lang);
-#endif
+		locale = copy_lang(root81->lang);
 
 		num_tables = root81->numblocks;
 		table_blocks = &(root81->blocks[0]);
@@ -467,7 +490,6 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 #endif //#ifdef delic
 #endif //#ifdef getcfname
 
-	delete cont;
 	memBlockManager.garbage(/*aggressive=*/true);
 }
 
-- 
2.43.0


From f39c9cf4245b7eddf16731aab4b6ad3b231bf712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 068/112] fix: fields of another type than expected were read
 beyond the record

---
 src/tool1cd/TableFiles.cpp             |  4 ++--
 src/tool1cd/TableRecord.cpp            | 14 ++++++++++++++
 src/tool1cd/TableRecord.h              | 10 +++++++++-
 src/tool1cd/save_depot_config.cpp      |  2 +-
 src/tool1cd/save_part_depot_config.cpp |  2 +-
 5 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index 2bf5d5f..8edccf2 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -103,8 +103,8 @@ TableFiles::TableFiles(Table* t)
 
 		if(partno) tr.partno = ToIntDef(record->get_string(partno), 0);
 		else tr.partno = 0;
-		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create));
-		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify));
+		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create, 7));
+		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify, 7));
 
 		allrec.push_back(tr);
 
diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..4307be5 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -113,6 +113,20 @@ const char *TableRecord::get_data(const Field *field) const
 	return &data[field->get_offset() + (field->get_null_exists() ? 1 : 0)];
 }
 
+const char *TableRecord::get_data(const Field *field, size_t size) const
+{
+	auto null_size = field->get_null_exists() ? 1 : 0;
+	if (static_cast<size_t>(field->get_size() - null_size) < size) {
+		throw DetailedException("Длина поля меньше необходимой")
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Поле", field->get_name())
+				.add_detail("Тип поля", field->get_presentation_type())
+				.add_detail("Длина поля", field->get_size())
+				.add_detail("Необходимая длина", size);
+	}
+	return get_data(field);
+}
+
 char *TableRecord::__get_data(const Field *field)
 {
 	return &data[field->get_offset() + (field->get_null_exists() ? 1 : 0)];
diff --git a/src/tool1cd/TableRecord.h b/src/tool1cd/TableRecord.h
index 43815a0..7967b45 100644
--- a/src/tool1cd/TableRecord.h
+++ b/src/tool1cd/TableRecord.h
@@ -50,6 +50,11 @@ namespace RecordConverters {
 
 	void convert(const char *data, BinaryGuid &result);
 
+	inline void convert(const char *data, bool &result)
+	{
+		result = *data != '\0';
+	}
+
 	template <typename T>
 	void put(char *data, const T value)
 	{
@@ -84,7 +89,7 @@ public:
 		}
 
 		T result;
-		RecordConverters::convert(get_data(f), result);
+		RecordConverters::convert(get_data(f, sizeof(T)), result);
 		return result;
 	}
 
@@ -113,6 +118,9 @@ public:
 	const char *get_data(const Field *field) const;
 	const char *get_data(const std::string &field_name) const;
 
+	// то же, с проверкой, что поле содержит не меньше size байт
+	const char *get_data(const Field *field, size_t size) const;
+
 	bool is_removed() const;
 
 	void Assign(const TableRecord *another_record);
diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 6dc737c..82df68a 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -164,7 +164,7 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 	// Определяем версию структуры конфигурации (для файла version)
 	if(depotVer >= depot_ver::Ver5)
 	{
-		const char *frec = vrec.get_raw("CVERSION");
+		const char *frec = vrec.get_data(table_versions->get_field("CVERSION"), 4);
 		cv.b[0] = frec[1];
 		cv.b[1] = frec[0];
 		configVerMajor = cv.s;
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index f5d2ffe..f846d10 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -158,7 +158,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 
 	// Определяем версию структуры конфигурации (для файла version)
 	if (depotVer >= depot_ver::Ver5) {
-		const char *frec = rec->get_raw("CVERSION");
+		const char *frec = rec->get_data(table_versions->get_field("CVERSION"), 4);
 		cv.b[0] = frec[1];
 		cv.b[1] = frec[0];
 		configVerMajor = cv.s;
-- 
2.43.0


From 3aad2b2f07dd0d0447ee084ca36adc5babd7b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 069/112] fix: the part number of a file in a configuration
 table was not checked

---
 src/tool1cd/TableFiles.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index 8edccf2..5776fa7 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -103,6 +103,13 @@ TableFiles::TableFiles(Table* t)
 
 		if(partno) tr.partno = ToIntDef(record->get_string(partno), 0);
 		else tr.partno = 0;
+		// каждая часть файла хранится в своей записи
+		if (tr.partno < 0 || static_cast<uint32_t>(tr.partno) >= table->get_phys_numrecords()) {
+			throw DetailedException("Недопустимый номер части файла")
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Файл", tr.name)
+				.add_detail("Номер части", tr.partno);
+		}
 		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create, 7));
 		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify, 7));
 
-- 
2.43.0


From 3b9799c7ca4697b7cc97d62eb870c9d496109a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 070/112] fix: lengths in packed data files and negative stream
 positions were not checked

---
 src/tool1cd/PackDirectory.cpp         |  4 ++++
 src/tool1cd/Packdata.cpp              | 15 +++++++++++++--
 src/tool1cd/SystemClasses/TStream.cpp |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/PackDirectory.cpp b/src/tool1cd/PackDirectory.cpp
index 4025fce..e37d312 100644
--- a/src/tool1cd/PackDirectory.cpp
+++ b/src/tool1cd/PackDirectory.cpp
@@ -75,6 +75,10 @@ TStream* PackDirectory::get_data(const std::string &datahash, bool &found)
 {
 	found = false;
 
+	if (datahash.size() != DATAHASH_FIELD_LENGTH * 2) {
+		return nullptr;
+	}
+
 	char binary_hash[DATAHASH_FIELD_LENGTH];
 	binary_datahash(datahash, binary_hash);
 
diff --git a/src/tool1cd/Packdata.cpp b/src/tool1cd/Packdata.cpp
index 782ff81..0ac257c 100755
--- a/src/tool1cd/Packdata.cpp
+++ b/src/tool1cd/Packdata.cpp
@@ -32,8 +32,11 @@ Packdata::Packdata(boost::filesystem::path& file_path) {
 	try {
 		std::unique_ptr<TFileStream> in(new TFileStream(file_path, fmOpenRead | fmShareDenyNone));
 		in->Seek(8, soFromBeginning);
-		uint32_t count;
+		uint32_t count = 0;
 		in->Read(&count, sizeof(count));
+		if (count > (in->GetSize() - in->GetPosition()) / sizeof(record_data_hash)) {
+			throw DetailedException("Количество записей больше размера файла");
+		}
 		datahashes.resize(count);
 		in->Read(datahashes.data(), count * sizeof(record_data_hash));
 	}
@@ -63,10 +66,18 @@ TStream* Packdata::get_data(const char* datahash, bool &found) {
 			pack->Seek(record.offset, soBeginning);
 			int64_t packlen = 0;
 			pack->Read(&packlen, sizeof(packlen));
+			if (packlen < 0 || packlen > pack->GetSize() - pack->GetPosition()) {
+				throw DetailedException("Длина данных выходит за пределы файла упакованных данных")
+						.add_detail("Смещение", record.offset)
+						.add_detail("Длина", packlen);
+			}
 			buffer = new TTempStream;
-			buffer->CopyFrom(pack.get(), packlen);
+			if (packlen) {
+				buffer->CopyFrom(pack.get(), packlen);
+			}
 			buffer->Close();
 			found = true;
+			break;
 		}
 	}
 	return buffer;
diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..3444833 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -59,7 +59,7 @@ int64_t TStream::Seek(const int64_t offset, const TSeekOrigin Origin)
 {
 	if (Origin == soFromBeginning) {
 
-		if (offset > GetSize()) {
+		if (offset < 0 || offset > GetSize()) {
 			throw Exception("Wrong offset");
 		}
 		m_position = offset;
-- 
2.43.0


From c73ccba4c92fd550e424842fbddbd2fbce9cbb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 071/112] fix: pages of an index were used without checks

---
 src/tool1cd/Index.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b29d0a0..44e03eb 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -21,6 +21,7 @@
 
 #include "Index.h"
 #include <limits>
+#include <memory>
 #include "TableRecord.h"
 #include "DetailedException.h"
 
@@ -85,7 +86,6 @@ uint32_t Index::get_numrec(uint32_t num_record) const
 //---------------------------------------------------------------------------
 void Index::create_recordsindex() const
 {
-	char* buf;
 	int32_t curlen;
 	uint64_t curblock;
 	uint32_t mask;
@@ -95,7 +95,8 @@ void Index::create_recordsindex() const
 
 	msreg_g.Status("Чтение индекса ");
 
-	buf = new char[pagesize];
+	std::unique_ptr<char[]> page(new char[pagesize]);
+	char* buf = page.get();
 
 	file_index = tbase->get_file_index();
 	file_index->get_data(buf, start, 8);
@@ -108,12 +109,22 @@ void Index::create_recordsindex() const
 
 	file_index->get_data(buf, curblock, pagesize);
 	curlen = *(int16_t*)(buf + 2);
+	uint64_t pages_left = file_index->get_len() / pagesize;
+	auto wrong_index = [this](const char *message) {
+		recordsindex.clear();
+		throw DetailedException(message)
+			.add_detail("Таблица", tbase->get_name())
+			.add_detail("Индекс", name);
+	};
 	if(curlen)
 	{
 		recordsindex.resize(tbase->get_file_data()->get_len() / tbase->get_recordlen());
 		bool is_leaf = buf[0] & 0x2;
 		while(!is_leaf)
 		{
+			if (length > pagesize || 16 + length + sizeof(uint32_t) > pagesize || pages_left-- == 0) {
+				wrong_index("Ошибка чтения индекса. Неверная страница-ветка.");
+			}
 			curblock = *(uint32_t*)(buf + 16 + length);
 			curblock = 	reverse_byte_order(curblock);
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
@@ -130,6 +141,12 @@ void Index::create_recordsindex() const
 			mask = *(uint32_t*)(buf + 14);
 			int32_t rlen = *(int16_t*)(buf + 28);
 			char *rbuf = buf + 30;
+			if (curlen < 0 || rlen < 0
+				|| (curlen && 30 + (int64_t)(curlen - 1) * rlen + sizeof(uint32_t) > pagesize)
+				|| curindex + curlen > recordsindex.size()
+				|| pages_left-- == 0) {
+				wrong_index("Ошибка чтения индекса. Неверная страница-лист.");
+			}
 			for (int32_t i = 0; i < curlen; i++)
 			{
 				recordsindex[curindex++] = *(uint32_t*)rbuf & mask;
@@ -146,7 +163,6 @@ void Index::create_recordsindex() const
 	}
 
 	recordsindex_complete = true;
-	delete[] buf;
 	tbase->set_log_numrecords(recordsindex.size());
 	msreg_g.Status("");
 }
-- 
2.43.0


From 164ca64beef0b52811896ee794b7cb036e1f5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 072/112] fix: growing and shrinking of objects and the list of
 free pages damaged other pages

---
 src/tool1cd/V8Object.cpp | 348 ++++++++++++++++++++-------------------
 src/tool1cd/V8Object.h   |   6 +-
 2 files changed, 181 insertions(+), 173 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index c14df46..856e417 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -19,6 +19,8 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include <algorithm>
+#include <cstddef>
+#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include "V8Object.h"
@@ -28,6 +30,9 @@
 
 using namespace std;
 
+// Первые три страницы базы (заголовок, таблица свободных страниц и корневой объект) свободными не бывают
+static const uint32_t FIRST_USABLE_BLOCK = 3;
+
 V8Object* V8Object::first = nullptr;
 V8Object* V8Object::last = nullptr;
 
@@ -247,7 +252,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				.add_detail("Блок", to_hex_string(blockNum));
 		}
 
-		len = 0; // ВРЕМЕННО! Пока не понятна структура файла свободных страниц
+		len = t->len;
 
 		version.version_1 = t->version;
 		version_rec.version_1 = version.version_1 + 1;
@@ -257,7 +262,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		real_numblocks = 0;
 		data = nullptr;
 
-		if(len) numblocks = (len - 1) / 0x400 + 1;
+		if(len) numblocks = (len - 1) / (base->get_pagesize() / sizeof(uint32_t)) + 1;
 		else numblocks = 0;
 
 		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
@@ -805,18 +810,18 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 		for (unsigned i = 0; i < numblocks; i++)
 		{
 			objtab *b = (objtab*)base->get_block(blocks[i]);
-			for(int32_t j = 0; j < b->numblocks; j++)
+			for(int32_t j = 0; j < std::min(b->numblocks, 1023); j++)
 			{
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(_length == 0) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(_length == 0) {
 				break;
 			}
 		}
@@ -829,7 +834,7 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 		curblock = 0;
 		curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
 
-		if(fatlevel)
+		if(fatlevel && _length)
 		{
 			offsperpage = base->get_pagesize() / 4;
 			curobjblock = 0;
@@ -903,17 +908,17 @@ bool V8Object::set_data(TStream* stream)
 		for (unsigned i = 0; i < numblocks; i++)
 		{
 			objtab *b = (objtab*)base->get_block(blocks[i]);
-			for(int32_t j = 0; j < b->numblocks; j++)
+			for(int32_t j = 0; j < std::min(b->numblocks, 1023); j++)
 			{
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				stream->ReadBuffer(tt, curlen);
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(_length == 0) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(_length == 0) {
 				break;
 			}
 		}
@@ -926,7 +931,7 @@ bool V8Object::set_data(TStream* stream)
 		curblock = 0;
 		curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
 
-		if(fatlevel)
+		if(fatlevel && _length)
 		{
 			offsperpage = base->get_pagesize() / 4;
 			curobjblock = 0;
@@ -1072,19 +1077,6 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 //---------------------------------------------------------------------------
 void V8Object::set_len(uint64_t _len)
 {
-
-	uint32_t num_data_blocks;
-	uint32_t num_blocks;
-	uint32_t cur_data_blocks;
-	uint32_t bl;
-	uint32_t i;
-	v8ob* b;
-	v838ob_data* bd;
-	objtab838* bb;
-	uint32_t offsperpage;
-	uint64_t maxlen;
-	int32_t newfatlevel;
-
 	if(len == _len) return;
 
 	if(type == v8objtype::free80 || type == v8objtype::free838)
@@ -1099,73 +1091,68 @@ void V8Object::set_len(uint64_t _len)
 
 	if(type == v8objtype::data80)
 	{
-		b = (v8ob*)base->get_block_for_write(block, true);
-		b->len = _len;
-
-		num_data_blocks = (_len + 0xfff) >> 12;
-		num_blocks = (num_data_blocks + 1022) / 1023;
-		cur_data_blocks = (len + 0xfff) >> 12;
-
-		if(numblocks != num_blocks)
+		const uint32_t offsperpage = 1023;
+		const uint64_t maxlen = std::min<uint64_t>(static_cast<uint64_t>(DEFAULT_PAGE_SIZE) * offsperpage * (sizeof(v8ob::blocks) / sizeof(uint32_t)), UINT32_MAX);
+		if(_len > maxlen)
 		{
-			blocks.clear();
-			blocks.resize(num_blocks);
+			throw DetailedException("Попытка установки длины файла больше максимальной")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Максимальная длина файла", maxlen)
+				.add_detail("Запрошенная длина файла", to_hex_string(_len));
 		}
 
-		if(num_data_blocks > cur_data_blocks)
+		v8ob *b = (v8ob*)base->get_block_for_write(block, true);
+
+		uint32_t num_data_blocks = (_len + 0xfff) >> 12;
+		uint32_t cur_data_blocks = (len + 0xfff) >> 12;
+
+		objtab *ot = nullptr;
+		if(numblocks) ot = (objtab*)base->get_block_for_write(blocks[numblocks - 1], true);
+
+		// Увеличение длины объекта
+		for(; cur_data_blocks < num_data_blocks; cur_data_blocks++)
 		{
-			objtab *ot;
-			// Увеличение длины объекта
-			if(numblocks) ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(; cur_data_blocks < num_data_blocks; cur_data_blocks++)
+			uint32_t i = cur_data_blocks % offsperpage;
+			if(i == 0)
 			{
-				i = cur_data_blocks % 1023;
-				if(i == 0)
-				{
-					bl = base->get_free_block();
-					b->blocks[numblocks++] = bl;
-					ot = (objtab*)base->get_block_for_write(bl, false);
-					ot->numblocks = 0;
-				}
-				bl = base->get_free_block();
-				base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
-				ot->blocks[i] = bl;
-				ot->numblocks = i + 1;
+				uint32_t bl = new_block();
+				b->blocks[numblocks++] = bl;
+				blocks.push_back(bl);
+				ot = (objtab*)base->get_block_for_write(bl, true);
 			}
+			ot->blocks[i] = new_block();
+			ot->numblocks = i + 1;
 		}
-		else if(num_data_blocks < cur_data_blocks)
+
+		// Уменьшение длины объекта
+		while(cur_data_blocks > num_data_blocks)
 		{
-			// Уменьшение длины объекта
-			objtab *ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+			cur_data_blocks--;
+			uint32_t i = cur_data_blocks % offsperpage;
+			base->set_block_as_free(ot->blocks[i]);
+			ot->blocks[i] = 0;
+			ot->numblocks = i;
+			if(i == 0)
 			{
-				i = cur_data_blocks % 1023;
-				base->set_block_as_free(ot->blocks[i]);
-				ot->blocks[i] = 0;
-				ot->numblocks = i;
-				if(i == 0)
-				{
-					base->set_block_as_free(b->blocks[--numblocks]);
-					b->blocks[numblocks] = 0;
-					if(numblocks) ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-				}
+				numblocks--;
+				base->set_block_as_free(blocks[numblocks]);
+				b->blocks[numblocks] = 0;
+				blocks.pop_back();
+				if(numblocks) ot = (objtab*)base->get_block_for_write(blocks[numblocks - 1], true);
 			}
-
 		}
 
+		b->len = _len;
 		len = _len;
-		if(numblocks > 0) {
-			std::copy(std::begin(b->blocks),
-					  std::begin(b->blocks) + (numblocks * 4),
-					  blocks.begin());
-		}
 
 		write_new_version();
 	}
 	else if(type == v8objtype::data838)
 	{
-		offsperpage = base->get_pagesize() / 4;
-		maxlen = base->get_pagesize() * offsperpage * (offsperpage - 6);
+		const uint32_t pagesize = base->get_pagesize();
+		const uint32_t offsperpage = pagesize / sizeof(uint32_t);
+		const uint32_t maxblocks = offsperpage - 6; // количество номеров страниц в заголовочной странице
+		const uint64_t maxlen = static_cast<uint64_t>(pagesize) * offsperpage * maxblocks;
 		if(_len > maxlen)
 		{
 			throw DetailedException("Попытка установки длины файла больше максимальной")
@@ -1174,123 +1161,106 @@ void V8Object::set_len(uint64_t _len)
 				.add_detail("Запрошенная длина файла", to_hex_string(_len));
 		}
 
-		bd = (v838ob_data*)base->get_block_for_write(block, true);
-		bd->len = _len;
+		v838ob_data *bd = (v838ob_data*)base->get_block_for_write(block, true);
 
-		num_data_blocks = (_len + base->get_pagesize() - 1) / base->get_pagesize();
-		if(num_data_blocks > offsperpage - 6)
-		{
-			num_blocks = (num_data_blocks + offsperpage - 1) / offsperpage;
-			newfatlevel = 1;
-		}
-		else
-		{
-			num_blocks = num_data_blocks;
-			newfatlevel = 0;
-		}
-		cur_data_blocks = (len + base->get_pagesize() - 1) / base->get_pagesize();
+		uint64_t num_data_blocks = (_len + pagesize - 1) / pagesize;
+		uint64_t cur_data_blocks = (len + pagesize - 1) / pagesize;
+		objtab838 *bb = nullptr;
 
-		if(numblocks != num_blocks)
+		if(fatlevel == 0 && num_data_blocks > maxblocks)
 		{
+			// Номера страниц больше не помещаются в заголовочной странице
+			std::vector<uint32_t> data_blocks = blocks;
 			blocks.clear();
-			blocks.resize(num_blocks);
-		}
-
-		if(num_data_blocks > cur_data_blocks)
-		{
-			// Увеличение длины объекта
-			if(fatlevel == 0 && newfatlevel)
+			if(!data_blocks.empty())
 			{
-				bl = base->get_free_block();
-				bb = (objtab838*)base->get_block_for_write(bl, false);
-				memcpy(bb->blocks, bd->blocks, numblocks * 4);
-				fatlevel = newfatlevel;
-				bd->fatlevel = newfatlevel;
-				bd->blocks[0] = bl;
-				numblocks = 1;
+				uint32_t bl = new_block();
+				bb = (objtab838*)base->get_block_for_write(bl, true);
+				std::copy(data_blocks.begin(), data_blocks.end(), bb->blocks);
+				blocks.push_back(bl);
 			}
-			else bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+			fatlevel = 1;
+		}
+		else if(fatlevel && numblocks)
+		{
+			bb = (objtab838*)base->get_block_for_write(blocks[numblocks - 1], true);
+		}
 
+		// Увеличение длины объекта
+		for(; cur_data_blocks < num_data_blocks; cur_data_blocks++)
+		{
 			if(fatlevel)
 			{
-				for(; cur_data_blocks < num_data_blocks; cur_data_blocks++)
+				uint32_t i = cur_data_blocks % offsperpage;
+				if(i == 0)
 				{
-					i = cur_data_blocks % offsperpage;
-					if(i == 0)
-					{
-						bl = base->get_free_block();
-						bd->blocks[numblocks++] = bl;
-						bb = (objtab838*)base->get_block_for_write(bl, false);
-					}
-					bl = base->get_free_block();
-					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
-					bb->blocks[i] = bl;
+					uint32_t bl = new_block();
+					blocks.push_back(bl);
+					bb = (objtab838*)base->get_block_for_write(bl, true);
 				}
+				bb->blocks[i] = new_block();
 			}
 			else
 			{
-				for(; cur_data_blocks < num_data_blocks; cur_data_blocks++)
-				{
-					bl = base->get_free_block();
-					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
-					bd->blocks[cur_data_blocks] = bl;
-				}
+				blocks.push_back(new_block());
 			}
 		}
-		else if(num_data_blocks < cur_data_blocks)
+
+		// Уменьшение длины объекта
+		while(cur_data_blocks > num_data_blocks)
 		{
-			// Уменьшение длины объекта
+			cur_data_blocks--;
 			if(fatlevel)
 			{
-				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				uint32_t i = cur_data_blocks % offsperpage;
+				base->set_block_as_free(bb->blocks[i]);
+				bb->blocks[i] = 0;
+				if(i == 0)
 				{
-					i = cur_data_blocks % offsperpage;
-					base->set_block_as_free(bb->blocks[i]);
-					bb->blocks[i] = 0;
-					if(i == 0)
-					{
-						base->set_block_as_free(bd->blocks[--numblocks]);
-						bd->blocks[numblocks] = 0;
-						if(numblocks) bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-					}
+					base->set_block_as_free(blocks.back());
+					blocks.pop_back();
+					if(!blocks.empty()) bb = (objtab838*)base->get_block_for_write(blocks.back(), true);
 				}
 			}
 			else
 			{
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
-				{
-					base->set_block_as_free(bd->blocks[cur_data_blocks]);
-					bd->blocks[cur_data_blocks] = 0;
-				}
-				numblocks = num_data_blocks;
+				base->set_block_as_free(blocks.back());
+				blocks.pop_back();
 			}
+		}
 
-			if(fatlevel && newfatlevel == 0)
+		if(fatlevel && num_data_blocks <= maxblocks)
+		{
+			// Номера страниц снова помещаются в заголовочной странице
+			if(!blocks.empty())
 			{
-				if(numblocks)
-				{
-					bl = bd->blocks[0];
-					memcpy(bd->blocks, bb->blocks, num_data_blocks * 4);
-					base->set_block_as_free(bl);
-				}
-				fatlevel = 0;
-				bd->fatlevel = 0;
+				uint32_t bl = blocks[0];
+				blocks.assign(bb->blocks, bb->blocks + num_data_blocks);
+				base->set_block_as_free(bl);
 			}
-
+			fatlevel = 0;
 		}
 
+		numblocks = blocks.size();
+		std::fill(bd->blocks, bd->blocks + maxblocks, 0);
+		std::copy(blocks.begin(), blocks.end(), bd->blocks);
+		bd->fatlevel = fatlevel;
+		bd->len = _len;
 		len = _len;
-		if(numblocks > 0) {
-			std::copy(std::begin(bd->blocks),
-					  std::begin(bd->blocks) + (numblocks * 4),
-					  blocks.begin());
-		}
 
 		write_new_version();
 	}
 }
 
+//---------------------------------------------------------------------------
+uint32_t V8Object::new_block()
+{
+	uint32_t block_number = base->get_free_block();
+	// получаем блок без чтения, на случай, если блок вдруг в конце файла
+	memset(base->get_block_for_write(block_number, false), 0, base->get_pagesize());
+	return block_number;
+}
+
 //---------------------------------------------------------------------------
 void V8Object::set_block_as_free(uint32_t block_number)
 {
@@ -1301,28 +1271,34 @@ void V8Object::set_block_as_free(uint32_t block_number)
 			.add_detail("Блок объекта", block);
 	}
 
-	uint32_t j = len >> 10; // length / 1024
-	int32_t i = len & 0x3ff; // length % 1024
+	if(block_number < FIRST_USABLE_BLOCK || block_number >= base->getMemBlockManager().get_numblocks())
+	{
+		throw DetailedException("Попытка освобождения недопустимого блока")
+			.add_detail("Блок", to_hex_string(block_number));
+	}
 
-	v8ob *ob = (v8ob*)base->get_block_for_write(block, true);
+	uint32_t per_page = base->get_pagesize() / sizeof(uint32_t);
+	uint32_t j = len / per_page;
+	uint32_t i = len % per_page;
 
 	if(real_numblocks > j)
 	{
-		len++;
-		ob->len = len;
 		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
 		b[i] = block_number;
+		set_free_len(len + 1);
 		if(numblocks <= j) numblocks = j + 1;
 	}
 	else
 	{
-		ob->blocks[real_numblocks] = block_number;
-		blocks.clear();
+		// все страницы таблицы заполнены, освобождаемая страница становится еще одной страницей таблицы
+		uint32_t header = type == v8objtype::free80 ? offsetof(v8ob, blocks) : offsetof(v838ob_free, blocks);
+		if(header + (real_numblocks + 1) * sizeof(uint32_t) > base->get_pagesize())
+		{
+			throw DetailedException("Таблица свободных блоков заполнена");
+		}
+		*(uint32_t*)(base->get_block_for_write(block, true) + header + real_numblocks * sizeof(uint32_t)) = block_number;
+		blocks.push_back(block_number);
 		real_numblocks++;
-		blocks.resize(real_numblocks);
-		std::copy(std::begin(ob->blocks),
-				  std::begin(ob->blocks) + (real_numblocks * 4),
-				  blocks.begin());
 	}
 
 }
@@ -1339,14 +1315,23 @@ uint32_t V8Object::get_free_block()
 
 	if(len)
 	{
-		len--;
-		unsigned j = len >> 10; // length / 1024
-		unsigned i = len & 0x3ff; // length % 1024
+		uint32_t per_page = base->get_pagesize() / sizeof(uint32_t);
+		uint32_t j = (len - 1) / per_page;
+		uint32_t i = (len - 1) % per_page;
+		if(j >= real_numblocks)
+		{
+			throw DetailedException("Ошибка чтения таблицы свободных блоков. Размещено меньше данных, чем длина таблицы.")
+				.add_detail("Длина таблицы", len);
+		}
 		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
-		unsigned k = b[i];
+		uint32_t k = b[i];
+		if(k < FIRST_USABLE_BLOCK || k >= base->getMemBlockManager().get_numblocks())
+		{
+			throw DetailedException("Недопустимый номер блока в таблице свободных блоков")
+				.add_detail("Блок", to_hex_string(k));
+		}
 		b[i] = 0;
-		v8ob *ob = (v8ob*)base->get_block_for_write(block, true);
-		ob->len = len;
+		set_free_len(len - 1);
 		return k;
 	}
 	else
@@ -1359,6 +1344,15 @@ uint32_t V8Object::get_free_block()
 
 }
 
+//---------------------------------------------------------------------------
+void V8Object::set_free_len(uint32_t _len)
+{
+	len = _len;
+	char *header = base->get_block_for_write(block, true);
+	if(type == v8objtype::free80) ((v8ob*)header)->len = _len;
+	else ((v838ob_free*)header)->len = _len;
+}
+
 //---------------------------------------------------------------------------
 void V8Object::get_version_rec_and_increase(_version* ver)
 {
@@ -1402,6 +1396,16 @@ void V8Object::write_new_version()
 	new_version_recorded = true;
 }
 
+void V8Object::set_current_version(uint32_t version_1, uint32_t version_2)
+{
+	int32_t veroffset = type == v8objtype::data80 || type == v8objtype::free80 ? 12 : 4;
+
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+	memcpy(base->get_block_for_write(block, true) + veroffset, &version, 8);
+	new_version_recorded = true;
+}
+
 _version V8Object::get_current_version() const
 {
 	return version;
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index f733bb7..33dc8cf 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -75,8 +75,9 @@ struct v838ob_free
 {
 	unsigned char sig[2]; // сигнатура 0x1C 0xFF (1C File Free?)
 	int16_t fatlevel; // 0x0000 пока! но может ... уровень таблицы размещения (0x0000 - в таблице blocks номера страниц с данными, 0x0001 - в таблице blocks номера страниц с таблицами размещения второго уровня, в которых уже, в свою очередь, находятся номера страниц с данными)
+	uint32_t len; // количество свободных страниц
 	uint32_t version; // ??? предположительно...
-	uint32_t blocks[1]; // Реальная длина массива зависит от размера страницы и равна pagesize/4-6 (от это 1018 для 4К до 16378 для 64К)
+	uint32_t blocks[1]; // Реальная длина массива зависит от размера страницы и равна pagesize/4-3. Номера страниц, в которых находятся номера свободных страниц
 };
 
 #pragma pack(pop)
@@ -122,6 +123,7 @@ public:
 	void get_version(_version* ver); // получает сохраненную версию объекта
 	void write_new_version(); // записывает новую версию объекта
 	_version get_current_version() const;
+	void set_current_version(uint32_t version_1, uint32_t version_2); // записывает указанную версию объекта
 
 	V8Object* get_next();
 
@@ -157,6 +159,8 @@ private:
 
 	void init();
 	void init(T_1CD* _base, int32_t blockNum);
+	void set_free_len(uint32_t _len); // записывает количество свободных блоков (только для таблицы свободных блоков)
+	uint32_t new_block(); // получает свободный блок, заполненный нулями
 };
 
 #endif
-- 
2.43.0


From f216023c537aacc732aa45da83e1c899d5014e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 073/112] fix: import of a table wrote its version over the
 length of the object (8.3.8) and lost new storages

---
 src/tool1cd/Class_1CD.cpp |  37 ++++
 src/tool1cd/Class_1CD.h   |   1 +
 src/tool1cd/Index.cpp     |   3 +
 src/tool1cd/Table.cpp     | 363 ++++++++++++++++----------------------
 src/tool1cd/Table.h       |   5 +-
 5 files changed, 198 insertions(+), 211 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 8043fb0..621fe7d 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -584,6 +584,43 @@ uint32_t T_1CD::get_free_block()
 	return free_blocks->get_free_block();
 }
 
+//---------------------------------------------------------------------------
+// записывает описание таблицы в корневой объект (только для версий, начиная с 8.3.8)
+void T_1CD::write_table_description(uint32_t block_descr, const std::string &description)
+{
+	auto bytes = TEncoding::UTF8->fromUtf8(description);
+	uint32_t block = block_descr;
+	size_t position = 0;
+	for(uint64_t blocks_left = root_object->get_len() / BLOB_RECORD_LEN; blocks_left; blocks_left--)
+	{
+		blob_block record;
+		root_object->get_data(&record, static_cast<uint64_t>(block) * BLOB_RECORD_LEN, BLOB_RECORD_LEN);
+
+		record.length = std::min<size_t>(bytes.size() - position, BLOB_RECORD_DATA_LEN);
+		memset(record.data, 0, BLOB_RECORD_DATA_LEN);
+		std::copy(bytes.begin() + position, bytes.begin() + position + record.length, record.data);
+		position += record.length;
+
+		if(position < bytes.size() && record.nextblock == 0)
+		{
+			// цепочка блоков закончилась, добавляем блоки в конец корневого объекта
+			record.nextblock = root_object->get_len() / BLOB_RECORD_LEN;
+			blob_block empty = {};
+			root_object->set_data(&empty, root_object->get_len(), BLOB_RECORD_LEN);
+			blocks_left++;
+		}
+		root_object->set_data(&record, static_cast<uint64_t>(block) * BLOB_RECORD_LEN, BLOB_RECORD_LEN);
+
+		block = record.nextblock;
+		if(block == 0)
+		{
+			return;
+		}
+	}
+	throw DetailedException("Зацикливание блоков описания таблицы")
+		.add_detail("Начальный блок", block_descr);
+}
+
 const MemBlockManager & T_1CD::getMemBlockManager() const
 {
 	return memBlockManager;
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 1ceb18e..117f0da 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -251,6 +251,7 @@ public:
 	char* get_block(uint32_t block_number) const; // буфер не принадлежит вызывающей стороне (принадлежит memblock)
 	char* get_block_for_write(uint32_t block_number, bool read); // буфер не принадлежит вызывающей стороне (принадлежит memblock)
 	void set_block_as_free(uint32_t block_number); // пометить блок как свободный
+	void write_table_description(uint32_t block_descr, const std::string &description); // записывает описание таблицы в корневой объект (только для версий, начиная с 8.3.8)
 	uint32_t get_free_block(); // получить номер свободного блока (и пометить как занятый)
 
 	const MemBlockManager &getMemBlockManager() const;
diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 44e03eb..931ee94 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -362,6 +362,9 @@ uint64_t Index::get_start_offset() const
 void Index::set_start_offset(const uint64_t value)
 {
 	start = value;
+	rootblock = 0;
+	recordsindex.clear();
+	recordsindex_complete = false;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d3feef2..6b8fea6 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -143,10 +143,7 @@ void Table::init(int32_t block_descr)
 	Tree* f;
 	Tree* rt;
 	int32_t j;
-	uint32_t m;
-	uint64_t s;
 	int32_t blockfile[3];
-	uint32_t* buf;
 
 	init();
 
@@ -349,72 +346,7 @@ void Table::init(int32_t block_descr)
 			.add_detail("Таблица", name)
 			.add_detail("Блок индексов", to_hex_string(blockfile[2]));
 	}
-	if(file_index)
-	{
-		m = file_index->get_len() / base->get_pagesize();
-		if(file_index->get_len() % base->get_pagesize() != 0)
-		{
-			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
-				.add_detail("Таблица", name)
-				.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()));
-		}
-		{
-			int32_t buflen = num_indexes * 4 + 4;
-			buf = new uint32_t[num_indexes + 1];
-			file_index->get_data(buf, 0, buflen);
-
-			if(buf[0] * base->get_pagesize() >= file_index->get_len())
-			{
-				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
-					.add_detail("Таблица", name)
-					.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
-					.add_detail("Индекс свободной страницы", to_hex_string(buf[0]));
-			}
-			{
-				for(int32_t i = 1; i <= num_indexes; i++)
-				{
-					if(base->get_version() < db_ver::ver8_3_8_0)
-					{
-						if(buf[i] >= file_index->get_len())
-						{
-							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
-								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
-								.add_detail("Номер индекса", i)
-								.add_detail("Смещение индекса", to_hex_string(buf[i]));
-						}
-						if(buf[i] & 0xfff)
-						{
-							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса не кратно 4 Кб")
-								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
-								.add_detail("Номер индекса", i)
-								.add_detail("Смещение индекса", to_hex_string(buf[i]));
-						}
-						indexes[i - 1]->set_start_offset(buf[i]);
-					}
-					else
-					{
-						s = buf[i];
-						s *= base->get_pagesize();
-						if(s >= file_index->get_len())
-						{
-							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
-								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", file_index->get_len())
-								.add_detail("Номер индекса", i)
-								.add_detail("Смещение индекса", s);
-						}
-						indexes[i - 1]->set_start_offset(s);
-					}
-				}
-			}
-
-			delete[] buf;
-
-		}
-
-	}
+	read_index_offsets();
 
 	// вычисляем длину записи таблицы как сумму длинн полей и проставим смещения полей в записи
 	recordlen = 1; // первый байт записи - признак удаленности
@@ -472,6 +404,7 @@ Table::Table(T_1CD* _base, int32_t block_descr)
 
 	base = _base;
 
+	this->block_descr = block_descr;
 	descr_table = new V8Object(base, block_descr);
 	auto data = descr_table->get_data();
 	description = TEncoding::Unicode->toUtf8(vector<uint8_t>(data, data + descr_table->get_len()));
@@ -492,6 +425,7 @@ Table::Table(T_1CD *_base, const std::string &_descr, int32_t block_descr)
 
 	base = _base;
 
+	this->block_descr = block_descr;
 	descr_table = 0;
 	description = _descr;
 
@@ -1180,158 +1114,82 @@ void Table::import_table(const boost::filesystem::path &path)
 		return;
 	}
 
-	TFileStream* f;
-	bool fopen;
-	v8ob* ob;
-
-	bool descr_changed = false;
-
-	try
-	{
-		f = new TFileStream(dir / "root", fmOpenRead);
-	}
-	catch(...)
+	export_import_table_root root;
+	std::unique_ptr<TFileStream> froot = open_import_file(dir, "root", 1);
+	if(froot->Read(&root, sizeof(export_import_table_root)) != sizeof(export_import_table_root))
 	{
-		throw DetailedException("Ошибка открытия файла импорта таблицы root")
+		throw DetailedException("Неверная длина файла импорта таблицы root")
 			.add_detail("Таблица", name)
 			.add_detail("Файл", (dir / "root").string());
 	}
-	export_import_table_root root;
-	f->Read(&root, sizeof(export_import_table_root));
-	delete f;
 
-	if(root.has_data) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "data", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы data")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "data").string());
-		}
-		if(fopen)
-		{
-			if(!file_data){
-				file_data = new V8Object(base);
-				descr_changed = true;
-			}
-			file_data->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_data->get_block_number(), true);
-			ob->version.version_1 = root.data_version_1;
-			ob->version.version_2 = root.data_version_2;
-			delete f;
-		}
+	// Все файлы открываются и проверяются до начала записи, чтобы не загрузить таблицу частично
+	std::unique_ptr<TFileStream> fdata, fblob, findex;
+	if(root.has_data) fdata = open_import_file(dir, "data", recordlen);
+	if(root.has_blob) fblob = open_import_file(dir, "blob", BLOB_RECORD_LEN);
+	if(root.has_index) findex = open_import_file(dir, "index", base->get_pagesize());
+	if(root.has_index && !num_indexes)
+	{
+		throw DetailedException("В таблице нет индексов, однако присутствует файл импорта индексов")
+			.add_detail("Таблица", name)
+			.add_detail("Файл", (dir / "index").string());
 	}
 
-	if(root.has_blob) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "blob", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы blob")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "blob").string());
-		}
-		if(fopen)
+	bool descr_changed = false;
+	auto import_file = [this, &descr_changed](TStream *stream, V8Object *&file, uint32_t version_1, uint32_t version_2) {
+		if(!stream) return;
+		if(!file)
 		{
-			if(!file_blob){
-				file_blob = new V8Object(base);
-				descr_changed = true;
+			if(base->get_readonly())
+			{
+				throw DetailedException("Попытка записи в файл в режиме \"Только чтение\"")
+					.add_detail("Таблица", name);
 			}
-			file_blob->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_blob->get_block_number(), true);
-			ob->version.version_1 = root.blob_version_1;
-			ob->version.version_2 = root.blob_version_2;
-			delete f;
+			file = new V8Object(base);
+			descr_changed = true;
 		}
-	}
+		file->set_data(stream);
+		file->set_current_version(version_1, version_2);
+	};
+	import_file(fdata.get(), file_data, root.data_version_1, root.data_version_2);
+	import_file(fblob.get(), file_blob, root.blob_version_1, root.blob_version_2);
+	import_file(findex.get(), file_index, root.index_version_1, root.index_version_2);
 
-	if(root.has_index) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "index", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы index")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "index").string());
-		}
-		if(fopen)
-		{
-			if(!file_index){
-				file_index = new V8Object(base);
-				descr_changed = true;
-			}
-			file_index->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_index->get_block_number(), true);
-			ob->version.version_1 = root.index_version_1;
-			ob->version.version_2 = root.index_version_2;
-			delete f;
-		}
-	}
+	if(descr_changed) refresh_descr_table();
 
-	if (descr_changed && root.has_descr)
-	{
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "descr", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы descr")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "descr").string());
-		}
-		if(fopen)
-		{
-			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			ob = (v8ob*)base->get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root.descr_version_1;
-			ob->version.version_2 = root.descr_version_2;
-
-			auto buf_size = f->GetSize();
-			char *buf = new char[buf_size];
-			f->Read(buf, buf_size);
-			string str = TEncoding::Unicode->toUtf8(vector<uint8_t>(buf, buf + buf_size));
-			delete[] buf;
-			delete f;
-
-			auto pos_files = str.find("{\"Files\",");
-			if (pos_files == string::npos) {
-				throw DetailedException("Ошибка поиска раздела Files в файле импорта таблицы descr")
-					.add_detail("Файл", (dir / "descr").string());
-			}
-			str.resize(pos_files);
-			str += "{\"Files\",";
-			str += file_data ? to_string(file_data->get_block_number()) : string("0");
-			str += ",";
-			str += file_blob ? to_string(file_blob->get_block_number()) : string("0");
-			str += ",";
-			str += file_index ? to_string(file_index->get_block_number()) : string("0");
-			str += "}\n}";
-
-			auto data = TEncoding::Unicode->fromUtf8(str);
-			descr_table->set_data(data.data(), data.size());
+	base->flush();
 
-		}
+	// прочитанное ранее содержимое таблицы больше не актуально
+	phys_numrecords = file_data->get_len() / recordlen;
+	recordsindex.clear();
+	recordsindex_complete = false;
+	numrecords_review = 0;
+	numrecords_found = 0;
+	read_index_offsets();
+	if(!num_indexes) fill_records_index();
+}
 
+//---------------------------------------------------------------------------
+// открывает файл импорта таблицы, длина файла должна быть кратна unit
+std::unique_ptr<TFileStream> Table::open_import_file(const boost::filesystem::path &dir, const std::string &file_name, uint32_t unit) const
+{
+	boost::filesystem::path path = dir / file_name;
+	if(!boost::filesystem::is_regular_file(path))
+	{
+		throw DetailedException("Ошибка открытия файла импорта таблицы " + file_name)
+			.add_detail("Таблица", name)
+			.add_detail("Файл", path.string());
 	}
-
-	base->flush();
-
+	std::unique_ptr<TFileStream> file(new TFileStream(path, fmOpenRead));
+	if(file->GetSize() % unit != 0)
+	{
+		throw DetailedException("Неверная длина файла импорта таблицы " + file_name)
+			.add_detail("Таблица", name)
+			.add_detail("Файл", path.string())
+			.add_detail("Длина", file->GetSize())
+			.add_detail("Длина должна быть кратна", unit);
+	}
+	return file;
 }
 
 //---------------------------------------------------------------------------
@@ -1664,14 +1522,99 @@ void Table::create_file_index()
 
 }
 
+//---------------------------------------------------------------------------
+// читает смещения индексов из файла индексов
+void Table::read_index_offsets()
+{
+	if(file_index)
+	{
+		if(file_index->get_len() % base->get_pagesize() != 0)
+		{
+			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
+				.add_detail("Таблица", name)
+				.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()));
+		}
+		{
+			int32_t buflen = num_indexes * 4 + 4;
+			std::vector<uint32_t> buf(num_indexes + 1);
+			file_index->get_data(buf.data(), 0, buflen);
+
+			if(buf[0] * base->get_pagesize() >= file_index->get_len())
+			{
+				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
+					.add_detail("Таблица", name)
+					.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+					.add_detail("Индекс свободной страницы", to_hex_string(buf[0]));
+			}
+			{
+				for(int32_t i = 1; i <= num_indexes; i++)
+				{
+					if(base->get_version() < db_ver::ver8_3_8_0)
+					{
+						if(buf[i] >= file_index->get_len())
+						{
+							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
+								.add_detail("Таблица", name)
+								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+								.add_detail("Номер индекса", i)
+								.add_detail("Смещение индекса", to_hex_string(buf[i]));
+						}
+						if(buf[i] & 0xfff)
+						{
+							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса не кратно 4 Кб")
+								.add_detail("Таблица", name)
+								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+								.add_detail("Номер индекса", i)
+								.add_detail("Смещение индекса", to_hex_string(buf[i]));
+						}
+						indexes[i - 1]->set_start_offset(buf[i]);
+					}
+					else
+					{
+						uint64_t s = buf[i];
+						s *= base->get_pagesize();
+						if(s >= file_index->get_len())
+						{
+							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
+								.add_detail("Таблица", name)
+								.add_detail("Длина файла индексов", file_index->get_len())
+								.add_detail("Номер индекса", i)
+								.add_detail("Смещение индекса", s);
+						}
+						indexes[i - 1]->set_start_offset(s);
+					}
+				}
+			}
+
+		}
+
+	}
+}
+
 //---------------------------------------------------------------------------
 void Table::refresh_descr_table()
 {
-	// TODO: Действительно ли тут ошибка?? и с такой ли формулировкой??
-	throw DetailedException("Попытка обновления файла описания таблицы.")
-		.add_detail("Таблица", name);
-	return;
+	auto pos_files = description.rfind("{\"Files\",");
+	if(pos_files == string::npos)
+	{
+		throw DetailedException("Ошибка поиска раздела Files в описании таблицы")
+			.add_detail("Таблица", name);
+	}
+	description.resize(pos_files);
+	description += "{\"Files\",";
+	description += to_string(file_data ? file_data->get_block_number() : 0);
+	description += ",";
+	description += to_string(file_blob ? file_blob->get_block_number() : 0);
+	description += ",";
+	description += to_string(file_index ? file_index->get_block_number() : 0);
+	description += "}\n}";
 
+	if(descr_table)
+	{
+		auto data = TEncoding::Unicode->fromUtf8(description);
+		descr_table->set_data(data.data(), data.size());
+	}
+	else base->write_table_description(block_descr, description);
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index 3d96612..d16e7bd 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -201,6 +201,7 @@ private:
 
 	V8Object* descr_table; // объект с описанием структуры таблицы (только для версий с 8.0 до 8.2.14)
 	std::string description;
+	int32_t block_descr {0}; // номер блока (страницы или, начиная с 8.3.8, блока корневого объекта) описания таблицы
 	std::string name;
 	int32_t num_fields;
 	std::vector<Field*> fields;
@@ -226,7 +227,9 @@ private:
 	void create_file_data(); // создание файла file_data
 	void create_file_blob(); // создание файла file_blob
 	void create_file_index(); // создание файла file_index
-	void refresh_descr_table(); // создание и запись файла описания таблицы
+	void refresh_descr_table(); // запись файла описания таблицы
+	void read_index_offsets(); // читает смещения индексов из файла индексов
+	std::unique_ptr<TFileStream> open_import_file(const boost::filesystem::path &dir, const std::string &file_name, uint32_t unit) const;
 
 	bool edit; // признак, что таблица находится в режиме редактирования
 
-- 
2.43.0


From 30d3923ac0de4ad578edd049010e9ec69b95c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 074/112] fix: blocks of damaged containers were read without
 checks, cyclic chains for ever

---
 src/tool1cd/SystemClasses/TStream.cpp |  21 ++-
 src/tool1cd/cfapi/APIcfBase.cpp       |  40 +++--
 src/tool1cd/cfapi/V8Catalog.cpp       | 235 +++++++++++++++++---------
 src/tool1cd/cfapi/V8Catalog.h         |   2 +
 src/tool1cd/cfapi/V8File.cpp          |  25 ++-
 5 files changed, 222 insertions(+), 101 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 3444833..aaecb33 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -20,6 +20,7 @@
 */
 #include "TStream.hpp"
 #include "Exception.hpp"
+#include <algorithm>
 #include <cstring>
 
 using namespace std;
@@ -107,9 +108,25 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 		}
 		return 0;
 	}
+	if (Count < 0) {
+		throw Exception("Wrong count");
+	}
+	// копируется по частям: источник может оказаться короче запрошенного
+	const int64_t PART_SIZE = 0x100000;
 	std::vector<uint8_t> _data;
-	auto resultCount = Source->Read(_data, Count);
-	return Write(_data, resultCount);
+	int64_t copied = 0;
+	while (copied < Count) {
+		const int64_t part = std::min(PART_SIZE, Count - copied);
+		auto resultCount = Source->Read(_data, part);
+		if (resultCount <= 0) {
+			break;
+		}
+		copied += Write(_data, resultCount);
+		if (resultCount < part) {
+			break;
+		}
+	}
+	return copied;
 }
 
 int64_t TStream::WriteBuffer(const void *Buffer, const int64_t Count)
diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index 74b901b..f36ae91 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -22,6 +22,31 @@
 #include "APIcfBase.h"
 
 using namespace std;
+
+// разбирает шестнадцатеричное число из 8 цифр; для всего остального возвращает -1
+static int32_t parse_hex_field(const char *field, size_t length)
+{
+	uint32_t value = 0;
+	for (size_t i = 0; i < length; i++) {
+		uint32_t digit;
+		const char c = field[i];
+		if (c >= '0' && c <= '9') {
+			digit = c - '0';
+		} else if (c >= 'a' && c <= 'f') {
+			digit = c - 'a' + 10;
+		} else if (c >= 'A' && c <= 'F') {
+			digit = c - 'A' + 10;
+		} else {
+			return -1;
+		}
+		value = (value << 4) | digit;
+	}
+	if (value > static_cast<uint32_t>(LAST_BLOCK)) {
+		return -1;
+	}
+	return static_cast<int32_t>(value);
+}
+
 //---------------------------------------------------------------------------
 // возвращает секунды от эпохи UNIX
 // https://stackoverflow.com/questions/6161776/convert-windows-filetime-to-second-in-unix-linux
@@ -32,10 +57,7 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 }
 
 int32_t stBlockHeader::get_data_size() const {
-	string hex("0x");
-	hex.append(data_size_hex, sizeof(data_size_hex));
-
-	return std::stoi(hex, nullptr, 16);
+	return parse_hex_field(data_size_hex, sizeof(data_size_hex));
 }
 
 void stBlockHeader::set_data_size(int32_t value) {
@@ -48,10 +70,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 }
 
 int32_t stBlockHeader::get_page_size() const {
-	string hex("0x");
-	hex.append(page_size_hex, sizeof(page_size_hex));
-
-	return std::stoi(hex, nullptr, 16);
+	return parse_hex_field(page_size_hex, sizeof(page_size_hex));
 }
 
 void stBlockHeader::set_page_size(int32_t value) {
@@ -64,10 +83,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 }
 
 int32_t stBlockHeader::get_next_page_addr() const {
-	string hex("0x");
-	hex.append(next_page_addr_hex, sizeof(next_page_addr_hex));
-
-	return std::stoi(hex, nullptr, 16);
+	return parse_hex_field(next_page_addr_hex, sizeof(next_page_addr_hex));
 }
 
 void stBlockHeader::set_next_page_addr(int32_t value) {
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index c1fa92c..38f1baf 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -25,64 +25,97 @@
 #include "../UZLib.h"
 #include "../Common.h"
 #include "../DetailedException.h"
+#include "../MessageRegistration.h"
 #include "../SystemClasses/String.hpp"
 
 using namespace std;
 using namespace System;
 
+extern Registrator msreg_g;
+
 //---------------------------------------------------------------------------
-// читает блок из потока каталога stream_from, собирая его по страницам
-TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullptr)
+// читает и проверяет заголовок блока контейнера
+static stBlockHeader read_block_header(TStream *stream, int64_t start)
 {
 	stBlockHeader block_header;
 
-	if(!stream_to) {
-		stream_to = new TMemoryStream;
+	if (start < stFileHeader::size()
+			|| start + stBlockHeader::size() > stream->GetSize()) {
+		throw DetailedException("Блок контейнера за пределами данных")
+				.add_detail("Адрес блока", to_string(start))
+				.add_detail("Размер данных", to_string(stream->GetSize()));
 	}
 
-	stream_to->Seek(0, soFromBeginning);
-	stream_to->SetSize(0);
+	stream->Seek(start, soFromBeginning);
+	stream->Read(&block_header, stBlockHeader::size());
 
-	if( start < 0
-			|| start == LAST_BLOCK
-			|| start > stream_from->GetSize() ) {
-		return stream_to;
+	if (!block_header.is_correct()
+			|| block_header.get_data_size() < 0
+			|| block_header.get_page_size() < 0
+			|| block_header.get_next_page_addr() < 0) {
+		throw DetailedException("Повреждён заголовок блока контейнера")
+				.add_detail("Адрес блока", to_string(start));
 	}
+	return block_header;
+}
 
-	stream_from->Seek(start, soFromBeginning);
-	stream_from->Read(&block_header, stBlockHeader::size());
+// наибольшее количество блоков, которое может поместиться в поток
+static int64_t max_block_count(TStream *stream)
+{
+	return stream->GetSize() / stBlockHeader::size() + 1;
+}
 
-	int32_t len = block_header.get_data_size();
+// читает блок из потока каталога stream_from, собирая его по страницам
+TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullptr)
+{
+	unique_ptr<TStream> created;
 
-	if(len == 0) {
-		return stream_to;
+	if(!stream_to) {
+		created.reset(new TMemoryStream);
+		stream_to = created.get();
 	}
 
-	int32_t curlen = block_header.get_page_size();
-	start = block_header.get_next_page_addr();
+	stream_to->Seek(0, soFromBeginning);
+	stream_to->SetSize(0);
 
-	int32_t readlen = std::min(len, curlen);
-	if(readlen > 0) { // CopyFrom с нулевой длиной копирует поток целиком
-		stream_to->CopyFrom(stream_from, readlen);
+	if(start == LAST_BLOCK) {
+		created.release();
+		return stream_to;
 	}
 
-	int32_t pos = readlen;
-
-	while(start != LAST_BLOCK) {
-		stream_from->Seek(start, soFromBeginning);
-		stream_from->Read(&block_header, block_header.size());
+	stBlockHeader block_header = read_block_header(stream_from, start);
+	const int32_t len = block_header.get_data_size();
 
-		curlen = block_header.get_page_size();
+	if(len > stream_from->GetSize()) {
+		throw DetailedException("Длина данных блока больше размера контейнера")
+				.add_detail("Адрес блока", to_string(start))
+				.add_detail("Длина данных", to_string(len));
+	}
 
-		start  = block_header.get_next_page_addr();
+	int64_t blocks_left = max_block_count(stream_from);
+	int32_t pos = 0;
 
-		readlen = std::min(len - pos, curlen);
-		if(readlen > 0) {
-			stream_to->CopyFrom(stream_from, readlen);
+	while(pos < len) {
+		const int32_t readlen = std::min(len - pos, block_header.get_page_size());
+		if(readlen > 0) { // CopyFrom с нулевой длиной копирует поток целиком
+			if(stream_to->CopyFrom(stream_from, readlen) != readlen) {
+				throw DetailedException("Данные блока выходят за пределы контейнера")
+						.add_detail("Адрес блока", to_string(start));
+			}
+			pos += readlen;
+		}
+		if(pos < len) {
+			start = block_header.get_next_page_addr();
+			if(start == LAST_BLOCK || --blocks_left < 0) {
+				throw DetailedException("Нарушена цепочка блоков контейнера")
+						.add_detail("Длина данных", to_string(len))
+						.add_detail("Прочитано", to_string(pos));
+			}
+			block_header = read_block_header(stream_from, start);
 		}
-		pos += readlen;
 	}
 
+	created.release();
 	return stream_to;
 
 }
@@ -311,7 +344,6 @@ V8Catalog::V8Catalog(V8File* f) // создать каталог из файла
 void V8Catalog::initialize()
 {
 	_destructed = false;
-	char* _temp_buf;
 
 	V8File* _prev;
 	V8File* _file;
@@ -343,17 +375,18 @@ void V8Catalog::initialize()
 					throw DetailedException("Повреждён заголовок файла контейнера")
 							.add_detail("Размер заголовка", to_string(header_size));
 				}
-				_temp_buf = new char[header_size];
-				file_data->Read(_temp_buf, header_size);
+				vector<uint8_t> header(header_size);
+				file_data->Read(header.data(), header_size);
 				// TODO: константы 20, 8
 
-				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
+				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(header.begin() + 20, header.end()));
 				_name = _name.substr(0, _name.find('\0')); // за именем следуют завершающие нули
-				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
+				int64_t time_create;
+				int64_t time_modify;
+				memcpy(&time_create, header.data(), sizeof(time_create));
+				memcpy(&time_modify, header.data() + sizeof(time_create), sizeof(time_modify));
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
-				delete[] _temp_buf;
 
 				if(!_prev) {
 					first = _file;
@@ -496,6 +529,16 @@ void V8Catalog::free_block(int start){
 		return;
 	}
 
+	// сначала проверяется вся цепочка, чтобы не освободить лишнего
+	int64_t blocks_left = max_block_count(data);
+	for(int next = start; next != LAST_BLOCK; ) {
+		if(--blocks_left < 0) {
+			throw DetailedException("Зациклена цепочка блоков контейнера")
+					.add_detail("Адрес блока", to_string(start));
+		}
+		next = read_block_header(data, next).get_next_page_addr();
+	}
+
 	Lock->Acquire();
 	prevempty = file_header.next_page_addr;
 	file_header.next_page_addr = start;
@@ -612,12 +655,16 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 	}
 	start = get_nextblock(start);
 
+	int64_t blocks_left = max_block_count(data) + 1;
 	do
 	{
+		if(--blocks_left < 0) {
+			throw DetailedException("Зациклена цепочка блоков контейнера")
+					.add_detail("Адрес блока", to_string(start));
+		}
 		if(start == file_header.next_page_addr)
 		{// пишем в свободный блок
-			data->Seek(start, soFromBeginning);
-			data->ReadBuffer(&block_header, stBlockHeader::size());
+			block_header = read_block_header(data, start);
 
 			blocklen = block_header.get_page_size();
 			nextstart = block_header.get_next_page_addr();
@@ -636,8 +683,7 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 		}
 		else
 		{// пишем в существующий блок
-			data->Seek(start, soFromBeginning);
-			data->ReadBuffer(&block_header, stBlockHeader::size());
+			block_header = read_block_header(data, start);
 
 			blocklen = block_header.get_page_size();
 			nextstart = block_header.get_next_page_addr();
@@ -690,47 +736,81 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 // деструктор
 V8Catalog::~V8Catalog()
 {
-	stElemAddr elem_addr;
-	V8File* f;
-	TMemoryStream* fat = nullptr;
-
 	Lock->Acquire();
 	_destructed = true;
 
-	f = first;
-	while(f)
-	{
-		f->close();
-		f = f->get_next();
+	// деструктор не должен выпускать исключений, поэтому о них сообщается здесь
+	try {
+		close_files();
+	} catch (const DetailedException &exc) {
+		exc.show();
+	} catch (const std::exception &exc) {
+		msreg_g.AddError("Ошибка записи оглавления контейнера")
+			.with("Контейнер", get_full_name())
+			.with("Ошибка", string(exc.what()));
 	}
 
-	if(data)
+	while(first) delete first;
+
+	try {
+		close_data();
+	} catch (const DetailedException &exc) {
+		exc.show();
+	} catch (const std::exception &exc) {
+		msreg_g.AddError("Ошибка записи контейнера")
+			.with("Контейнер", get_full_name())
+			.with("Ошибка", string(exc.what()));
+	}
+
+	if(!file)
 	{
-		if(_fatmodified)
+		if(is_cfu)
 		{
-			try
-			{
-				fat = new TMemoryStream;
-				elem_addr.fffffff = LAST_BLOCK;
-				f = first;
-				while(f)
-				{
-					elem_addr.header_addr = f->get_start_header();
-					elem_addr.data_addr = f->get_start_data();
-					fat->WriteBuffer(&elem_addr, stElemAddr::size());
-					f = f->get_next();
-				}
-				write_block(fat, stFileHeader::size(), true);
-			}
-			catch(...)
-			{
+			delete data;
+			data = nullptr;
+			if(!leave_data){
+				delete cfu;
+				cfu = nullptr;
 			}
-			delete fat;
 		}
+		if(data && !leave_data)
+		{
+			delete data;
+			data = nullptr;
+		}
+		delete Lock;
 	}
+}
 
-	while(first) delete first;
+//---------------------------------------------------------------------------
+// закрывает файлы и записывает оглавление
+void V8Catalog::close_files()
+{
+	stElemAddr elem_addr;
+
+	for(V8File* f = first; f; f = f->get_next())
+	{
+		f->close();
+	}
 
+	if(data && _fatmodified)
+	{
+		TMemoryStream fat;
+		elem_addr.fffffff = LAST_BLOCK;
+		for(V8File* f = first; f; f = f->get_next())
+		{
+			elem_addr.header_addr = f->get_start_header();
+			elem_addr.data_addr = f->get_start_data();
+			fat.WriteBuffer(&elem_addr, stElemAddr::size());
+		}
+		write_block(&fat, stFileHeader::size(), true);
+	}
+}
+
+//---------------------------------------------------------------------------
+// записывает заголовок контейнера и сам контейнер
+void V8Catalog::close_data()
+{
 	if(data)
 	{
 		if(is_emptymodified)
@@ -764,21 +844,8 @@ V8Catalog::~V8Catalog()
 				cfu->Seek(0, soFromBeginning);
 				ZDeflateStream(data, cfu);
 			}
-			delete data;
-			data = nullptr;
-			if(cfu && !leave_data){
-				delete cfu;
-				cfu = nullptr;
-			}
-		}
-		if(data && !leave_data)
-		{
-			delete data;
-			data = nullptr;
 		}
-
 	}
-	if(!file) delete Lock;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/cfapi/V8Catalog.h b/src/tool1cd/cfapi/V8Catalog.h
index ec51b01..61ae01b 100644
--- a/src/tool1cd/cfapi/V8Catalog.h
+++ b/src/tool1cd/cfapi/V8Catalog.h
@@ -92,6 +92,8 @@ private:
 	TStream* data; // поток каталога. Если file не NULL (каталог не корневой), совпадает с file->data
 	TStream* cfu;  // поток файла cfu. Существует только при is_cfu == true
 	void initialize();
+	void close_files();
+	void close_data();
 	V8File* first; // первый файл в каталоге
 	V8File* last;  // последний файл в каталоге
 	std::map<std::string,V8File*> files; // Соответствие имен и файлов
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index dcd10cf..c19574d 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -447,7 +447,10 @@ void V8File::delete_file()
 		parent->free_block(start_header);
 
 		V8Catalog::V8Files& files = parent->v8files();
-		files.erase(LowerCase(name));
+		auto it = files.find(LowerCase(name));
+		if(it != files.end() && it->second == this) {
+			files.erase(it);
+		}
 
 		parent->Release();
 		parent = nullptr;
@@ -488,7 +491,12 @@ bool V8File::open(){
 		Lock->Release();
 		return true;
 	}
-	data = parent->read_datablock(start_data);
+	try {
+		data = parent->read_datablock(start_data);
+	} catch (...) {
+		Lock->Release();
+		throw;
+	}
 	is_opened = true;
 	Lock->Release();
 	return true;
@@ -630,7 +638,18 @@ V8File::~V8File()
 		delete *istreams; // поток сам удаляет себя из списка
 	}
 
-	close();
+	// деструктор не должен выпускать исключений, поэтому о них сообщается здесь
+	try {
+		close();
+	} catch (const DetailedException &exc) {
+		exc.show();
+	} catch (const std::exception &exc) {
+		msreg_g.AddError("Ошибка закрытия файла контейнера")
+			.with("Файл", name)
+			.with("Ошибка", string(exc.what()));
+	}
+	delete data;
+	data = nullptr;
 
 	if(parent)
 	{
-- 
2.43.0


From 4f745d5b2d929169bdbc14c549f7a1a5a2b10510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 075/112] fix: errors while writing into damaged containers,
 partial data of damaged streams

---
 src/tool1cd/TableRecord.cpp     |  3 +++
 src/tool1cd/cfapi/V8Catalog.cpp | 27 ++++++++++++++++++++++++---
 src/tool1cd/cfapi/V8File.cpp    |  1 +
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 4307be5..a17ef80 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -202,6 +202,9 @@ bool TableRecord::try_store_blob_data(const Field *field, TStream *&out, bool in
 		try {
 			ZInflateStream(&in, out);
 		} catch (ZError) {
+			// распакованная часть испорченных данных не должна остаться перед исходными данными
+			out->SetSize(0);
+			out->Seek(0, soFromBeginning);
 			out->CopyFrom(&in, 0);
 		}
 	}
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 38f1baf..6c07266 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -59,6 +59,24 @@ static stBlockHeader read_block_header(TStream *stream, int64_t start)
 	return block_header;
 }
 
+// размер страницы по умолчанию; недопустимый (из повреждённого заголовка) заменяется обычным
+static int32_t default_page_size(const stFileHeader &file_header)
+{
+	const int32_t USUAL_PAGE_SIZE = 512;
+	const int32_t MAX_PAGE_SIZE = 0x100000;
+
+	if (file_header.page_size < 0 || file_header.page_size > MAX_PAGE_SIZE) {
+		return USUAL_PAGE_SIZE;
+	}
+	return file_header.page_size;
+}
+
+// следующая версия контейнера; после наибольшего числа счёт начинается заново
+static int32_t next_storage_version(int32_t storage_ver)
+{
+	return storage_ver < 0 || storage_ver == std::numeric_limits<int32_t>::max() ? 0 : storage_ver + 1;
+}
+
 // наибольшее количество блоков, которое может поместиться в поток
 static int64_t max_block_count(TStream *stream)
 {
@@ -675,7 +693,10 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 		else if(start == data->GetSize())
 		{// пишем в новый блок
 			block_header = stBlockHeader::create(0, 0, 0);
-			blocklen = use_page_size ? len > file_header.page_size ? len : file_header.page_size : len;
+			blocklen = len;
+			if(use_page_size) {
+				blocklen = std::max(len, default_page_size(file_header));
+			}
 			block_header.set_page_size(blocklen);
 
 			nextstart = 0;
@@ -820,7 +841,7 @@ void V8Catalog::close_data()
 		}
 		if(is_modified)
 		{
-			file_header.storage_ver++;
+			file_header.storage_ver = next_storage_version(file_header.storage_ver);
 			data->Seek(8, soFromBeginning);
 			data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
 		}
@@ -954,7 +975,7 @@ void V8Catalog::Flush()
 		}
 		if(is_modified)
 		{
-			file_header.storage_ver++;
+			file_header.storage_ver = next_storage_version(file_header.storage_ver);
 			data->Seek(8, soFromBeginning);
 			data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
 		}
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index c19574d..039d635 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -600,6 +600,7 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 
 	delete data;
 	data = nullptr;
+	is_opened = false;
 
 	if (!parent->data_empty()) {
 		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
-- 
2.43.0


From ae24995791e46e2eb54a8df97acc1d43488dab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 076/112] fix: an argument ending with several quotes never
 finished parsing

---
 src/ctool1cd/ParseCommandLine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 7b5429b..0347819 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -165,8 +165,8 @@ std::string dequote(const std::string &str)
 	if (result.front() == '\"' && result.back() == '\"') {
 		result = result.substr(1, result.size() - 2);
 	}
-	while (result.back() == '\"') {
-		result = result.substr(0, str.size() - 1);
+	while (!result.empty() && result.back() == '\"') {
+		result.pop_back();
 	}
 	return result;
 }
@@ -181,7 +181,7 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 	for (int i = 1; i < nArgs; i++)
 	{
 		std::string param = szArglist[i];
-		if (param.front() == '-') {
+		if (!param.empty() && param.front() == '-') {
 			param = LowerCase(param.substr(1, param.size() - 1));
 			int j;
 			for (j = 0; j < numdef; j++) {
-- 
2.43.0


From 34118dc36d6c346ab0a99bb6903532d0488bf701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 077/112] fix: errors of the command line are written to the
 log file, a key without its parameters is not executed

---
 src/ctool1cd/App.cpp              |  4 ++++
 src/ctool1cd/ParseCommandLine.cpp | 28 +++++++++++++++++++++-------
 src/ctool1cd/ParseCommandLine.h   |  9 +++++++++
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index f30dc7f..7d12b7b 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -550,6 +550,7 @@ int App::Run()
 	if (commands.empty()) {
 		out_gpl_header();
 		cout << "Запусти cTool_1CD -h для справки" << endl;
+		comm.report_errors();
 		return 0;
 	}
 
@@ -558,6 +559,7 @@ int App::Run()
 		switch (pc.command) {
 			case Command::help:
 				cout << comm.gethelpstring() << endl;
+				comm.report_errors();
 				return 0;
 			case Command::no_verbose:
 				mess.setnoverbose(true);
@@ -580,6 +582,8 @@ int App::Run()
 		}
 	}
 
+	comm.report_errors();
+
 	string f = comm.getfilename();
 	if (f.empty()) {
 		msreg_g.AddMessage("В командной строке не найден файл базы 1CD", MessageState::Error);
diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 0347819..8d0326c 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -221,10 +221,15 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 					else
 					{
 						// TODO: Ошибка! Недостаточно параметров ключа!
-						msreg_g.AddMessage("Недостаточно параметров ключа командной строки.", MessageState::Error)
-							.with("Ключ", param);
+						errors.push_back({"Недостаточно параметров ключа командной строки.", {{"Ключ", param}}});
+						break;
 					}
 				}
+				if (l < definitions[j].num_add_par) {
+					// без параметров команду выполнить нельзя
+					commands.pop_back();
+					continue;
+				}
 				if (!definitions[j].predefine_par.empty()) {
 					switch(l)
 					{
@@ -246,8 +251,7 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 			else
 			{
 				// TODO: Ошибка! Неизвестный ключ!
-				msreg_g.AddMessage("Неизвестный ключ командной строки.", MessageState::Error)
-					.with("Ключ", param);
+				errors.push_back({"Неизвестный ключ командной строки.", {{"Ключ", param}}});
 			}
 
 		}
@@ -256,15 +260,25 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 			if(!filename.empty())
 			{
 				// TODO: Ошибка! Имя файла базы уже было в командной строке!
-				msreg_g.AddMessage("Повторное имя файла базы в командной строке.", MessageState::Error)
-					.with("Имя файла", filename)
-					.with("Повторное имя файла", param);
+				errors.push_back({"Повторное имя файла базы в командной строке.",
+						{{"Имя файла", filename}, {"Повторное имя файла", param}}});
 			}
 			else filename = dequote(param);
 		}
 	}
 }
 
+// Сообщения регистрируются после обработки ключей, чтобы попасть в лог-файл
+void CommandParse::report_errors() const
+{
+	for (const auto &error : errors) {
+		auto message = msreg_g.AddError(error.description);
+		for (const auto &detail : error.details) {
+			message.with(detail.first, detail.second);
+		}
+	}
+}
+
 std::vector<ParsedCommand>& CommandParse::getcommands()
 {
 	return commands;
diff --git a/src/ctool1cd/ParseCommandLine.h b/src/ctool1cd/ParseCommandLine.h
index cc485a5..7eec507 100755
--- a/src/ctool1cd/ParseCommandLine.h
+++ b/src/ctool1cd/ParseCommandLine.h
@@ -24,6 +24,7 @@
 
 #include <vector>
 #include <string>
+#include <utility>
 
 //---------------------------------------------------------------------------
 enum class Command
@@ -65,12 +66,19 @@ struct ParsedCommand
 	std::string param3;        // значение третьего доп. параметра
 };
 
+struct ParseError
+{
+	std::string description;   // сообщение
+	std::vector<std::pair<std::string, std::string>> details;
+};
+
 class CommandParse
 {
 public:
 	CommandParse(char **szArglist, int nArgs);
 	std::vector<ParsedCommand>& getcommands();
 	std::string & getfilename();
+	void report_errors() const;
 	static std::string & gethelpstring();
 
 private:
@@ -78,6 +86,7 @@ private:
 	static std::string helpstring;
 	std::string filename;
 	std::vector<ParsedCommand> commands;
+	std::vector<ParseError> errors;
 };
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From b5f3dc08412205a7f2650342842bcfb0ce3ebf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 078/112] fix: arguments that are not UTF-8 ended the program
 abnormally

---
 src/ctool1cd/cTool_1CD_Main.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ctool1cd/cTool_1CD_Main.cpp b/src/ctool1cd/cTool_1CD_Main.cpp
index 186b722..fe5d4b6 100755
--- a/src/ctool1cd/cTool_1CD_Main.cpp
+++ b/src/ctool1cd/cTool_1CD_Main.cpp
@@ -37,11 +37,17 @@ int main(int argc, char* argv[])
 
 	msreg_g.AddMessageRegistrator(&mess);
 
-	App app(argv, argc, mess);
+	try {
+		App app(argv, argc, mess);
 
-	int result = app.Run();
-	if (result != 0) {
-		return result;
+		int result = app.Run();
+		if (result != 0) {
+			return result;
+		}
+	}
+	catch (const std::exception &ex) {
+		// например, аргумент командной строки не в UTF-8
+		msreg_g.AddError(ex.what());
 	}
 
 	if(mess.has_error)
-- 
2.43.0


From dd9aefc3da5b028e1b01ad68b2dfe131c8767bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 079/112] fix: -nv did not suppress any output, an unusable log
 file went unnoticed

---
 src/ctool1cd/ParseCommandLine.cpp |  5 +++--
 src/tool1cd/Messenger.cpp         | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 8d0326c..ab3edf7 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -87,7 +87,7 @@ ctool1cd.exe [<ключи>] <1CD файл> [<ключи>]\r\n\
  -h, -help, -?\r\n\
    эта справка.\r\n\
 \r\n\
- -nv, -noverbose\
+ -nv, -noverbose\r\n\
    подавить вывод в консоль.\r\n\
 \r\n\
 -q, -quit\r\n\
@@ -147,7 +147,8 @@ ctool1cd.exe [<ключи>] <1CD файл> [<ключи>]\r\n\
    Таблицы должны существовать в базе, новые таблицы не создаются.\r\n\
 \r\n\
  -slo, -SaveLostObjects <путь>\r\n\
-   Найти потерянные объекты и сохранить\r\n.\
+   Найти потерянные объекты и сохранить.\r\n\
+\r\n\
  -sts, -SaveTablesSize <путь>\r\n\
    Сохранить в файл размеры таблиц и вспомогательных данных. Сохраняются с простой текстовый файл с разделителем колонок |\r\n\
 Если в пути содержатся пробелы, его необходимо заключать в кавычки. Пути следует указывать без завершающего бэкслеша \"\\\".\r\n\
diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index db27ef0..7d19669 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -37,7 +37,9 @@ Messenger::Messenger()
 //---------------------------------------------------------------------------
 void Messenger::Status(const string &message)
 {
-	cout << message << endl;
+	if (!noverbose) {
+		cout << message << endl;
+	}
 	AddMessage(message, MessageState::Empty);
 }
 
@@ -56,6 +58,17 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 
 	if (!logfile.empty()) {
 		output = make_shared<boost::filesystem::ofstream>(boost::filesystem::path(logfile), std::ios_base::app);
+		if (!*output) {
+			if (!noverbose) {
+				cerr << "Не удалось открыть лог-файл " << logfile << endl;
+			}
+			has_error = true;
+			logfile.clear();
+			output = shared_ptr<ostream>(&cerr, [](...){} );
+		}
+	}
+	if (logfile.empty() && noverbose) {
+		return;
 	}
 	*output << message << endl;
 	if (param) {
-- 
2.43.0


From 558bd82bd20e1a5b33fccd3dc27bd6fcf289a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 080/112] fix: special characters in a list of tables were
 taken as a regular expression

---
 src/ctool1cd/App.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 7d12b7b..0511cb1 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -23,6 +23,7 @@
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
+#include <cstring>
 #include <iosfwd>
 #include <vector>
 
@@ -54,6 +55,22 @@ static uint64_t object_size(/*const */V8Object *file)
 	return file->get_len();
 }
 
+// один символ в кодировке UTF-8
+static const char ANY_CHARACTER[] = "(?:[\\x01-\\x7f]|[\\xc2-\\xf4][\\x80-\\xbf]+)";
+
+// экранирует все специальные символы регулярных выражений, кроме знаков подстановки * и ?
+static string escape_regex(const string &filter)
+{
+	string result;
+	for (char c : filter) {
+		if (c != '\0' && strchr(".[]{}()\\+|^$", c)) {
+			result += '\\';
+		}
+		result += c;
+	}
+	return result;
+}
+
 App::App(char **szArglist, int nArgs, Messenger &mess)
 		: comm(szArglist, nArgs), mess(mess)
 {}
@@ -105,8 +122,9 @@ void App::export_to_xml(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
+	filter = escape_regex(filter);
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
-	filter = StringReplace(filter, "?", ".", rfReplaceAll);
+	filter = StringReplace(filter, "?", ANY_CHARACTER, rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
 	filter = StringReplace(filter, "\t", "\n", rfReplaceAll);
 	filter = StringReplace(filter, ",", "\n", rfReplaceAll);
@@ -168,8 +186,9 @@ void App::export_to_binary(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
+	filter = escape_regex(filter);
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
-	filter = StringReplace(filter, "?", ".", rfReplaceAll);
+	filter = StringReplace(filter, "?", ANY_CHARACTER, rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
 	filter = StringReplace(filter, "\t", "\n", rfReplaceAll);
 	filter = StringReplace(filter, ",", "\n", rfReplaceAll);
@@ -231,8 +250,9 @@ void App::import_from_binary(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
+	filter = escape_regex(filter);
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
-	filter = StringReplace(filter, "?", ".", rfReplaceAll);
+	filter = StringReplace(filter, "?", ANY_CHARACTER, rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
 	filter = StringReplace(filter, "\t", "\n", rfReplaceAll);
 	filter = StringReplace(filter, ",", "\n", rfReplaceAll);
-- 
2.43.0


From 48fd0b2d84ff74873f1beb22fd7b4131450c3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 081/112] fix: wrong version numbers were taken for the last
 version

---
 src/ctool1cd/App.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 0511cb1..60bd746 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -71,6 +71,23 @@ static string escape_regex(const string &filter)
 	return result;
 }
 
+// номер версии хранилища; все символы параметра должны относиться к числу
+static bool parse_version_number(const string &param, int32_t &version_number)
+{
+	try {
+		size_t parsed = 0;
+		version_number = stoi(param, &parsed);
+		if (parsed == param.size()) {
+			return true;
+		}
+	} catch (const logic_error &) {
+		// не число или слишком большое число
+	}
+	msreg_g.AddError("Неверный номер версии конфигурации.")
+			.with("Номер версии", param);
+	return false;
+}
+
 App::App(char **szArglist, int nArgs, Messenger &mess)
 		: comm(szArglist, nArgs), mess(mess)
 {}
@@ -432,10 +449,8 @@ void App::save_depot_config(const ParsedCommand &pc)
 	int version_number;
 	string version_number_param = pc.param1;
 
-	if (Equal(version_number_param, "0")) {
-		version_number = 0;
-	} else {
-		version_number = ToIntDef(version_number_param, 0);
+	if (!parse_version_number(version_number_param, version_number)) {
+		return;
 	}
 
 	version_number = base1CD->get_ver_depot_config(version_number);
@@ -479,14 +494,14 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 
 	auto splitter = version_number_param.find(':');
 	if (splitter != string::npos) {
-		end_version = ToIntDef(version_number_param
-				.substr(splitter + 1, version_number_param.size() - splitter - 1)
-				, 0);
-		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter)
-				, 0);
+		if (!parse_version_number(version_number_param.substr(splitter + 1), end_version)
+				|| !parse_version_number(version_number_param.substr(0, splitter), begin_version)) {
+			return;
+		}
 	} else {
-		begin_version = ToIntDef(version_number_param, 0);
+		if (!parse_version_number(version_number_param, begin_version)) {
+			return;
+		}
 		end_version = begin_version;
 	}
 
-- 
2.43.0


From ced19715d7bd112643586505826afd72b13802b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 082/112] fix: wrong values of -bf and -pb were taken for no

---
 src/ctool1cd/App.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 60bd746..6d8f89a 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -98,8 +98,16 @@ App::~App()
 bool App::IsTrueString(const string &str) const
 {
 	string s = LowerCase(str);
-	return Equal(s, "1") || Equal(s, "y") || Equal(s, "yes") || Equal(s, "д") ||
-			Equal(s, "да");
+	if (Equal(s, "1") || Equal(s, "y") || Equal(s, "yes") || Equal(s, "д") ||
+			Equal(s, "да")) {
+		return true;
+	}
+	if (!(Equal(s, "0") || Equal(s, "n") || Equal(s, "no") || Equal(s, "н") ||
+			Equal(s, "нет"))) {
+		msreg_g.AddError("Неверное значение ключа командной строки, ожидается yes или no.")
+				.with("Значение", str);
+	}
+	return false;
 }
 
 // export_all_to_xml
-- 
2.43.0


From 423f6266a57251f2e4b00a3acf3e504a1f01ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 083/112] fix: a failed import of a table was followed by the
 message of success

---
 src/ctool1cd/App.cpp      | 7 ++++++-
 src/tool1cd/Class_1CD.cpp | 2 +-
 src/tool1cd/Table.cpp     | 5 +++--
 src/tool1cd/Table.h       | 2 +-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 6d8f89a..d065cea 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -322,7 +322,9 @@ void App::import_from_binary(const ParsedCommand &pc)
 			if (!tbl->get_num_indexes()) {
 				tbl->fill_records_index();
 			}
-			tbl->import_table(root_path.string());
+			if (!tbl->import_table(root_path.string())) {
+				continue;
+			}
 			msreg_g.AddMessage("Выполнен импорт таблицы из файла.", MessageState::Succesfull)
 					.with("Таблица", tbl->get_name())
 					.with("Каталог", root_path.string());
@@ -730,6 +732,9 @@ int App::Run()
 		catch (Exception &ex) {
 			msreg_g.AddError(ex.Message());
 		}
+		catch (exception &ex) {
+			msreg_g.AddError(ex.what());
+		}
 		catch (...) {
 			msreg_g.AddError("Неизвестная ошибка.");
 		}
diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 621fe7d..bb8c0e7 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1966,7 +1966,7 @@ int32_t T_1CD::get_ver_depot_config(int32_t ver) // Получение номе
 	Index *ind = table_versions->get_index("PK");
 
 	uint32_t i = ind->get_numrecords();
-	if (i <= (uint32_t)(-ver)) {
+	if (i <= -(int64_t)ver) {
 		DetailedException error("Запрошенной версии конфигурации не существует");
 		error.add_detail("Всего версий в хранилище", i);
 		error.add_detail("Запрошенный номер версии", ver);
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 6b8fea6..b4b59c3 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1106,12 +1106,12 @@ void Table::export_table(const boost::filesystem::path &path) const
 }
 
 //---------------------------------------------------------------------------
-void Table::import_table(const boost::filesystem::path &path)
+bool Table::import_table(const boost::filesystem::path &path)
 {
 	boost::filesystem::path dir = path / name;
 
 	if(!directory_exists(dir)) {
-		return;
+		return false;
 	}
 
 	export_import_table_root root;
@@ -1167,6 +1167,7 @@ void Table::import_table(const boost::filesystem::path &path)
 	numrecords_found = 0;
 	read_index_offsets();
 	if(!num_indexes) fill_records_index();
+	return true;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index d16e7bd..3f00557 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -173,7 +173,7 @@ public:
 	void set_rec_type(uint32_t phys_numrecord, changed_rec_type crt);
 
 	void export_table(const boost::filesystem::path &path) const;
-	void import_table(const boost::filesystem::path &path);
+	bool import_table(const boost::filesystem::path &path);
 
 	void delete_record(uint32_t phys_numrecord); // удаление записи
 	void insert_record(const TableRecord *rec); // добавление записи
-- 
2.43.0


From a9e3ee563581041f480061c0ca6d184f239cf13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 084/112] fix: -dc and others after -ib in one run read files
 at the places they had before the import

---
 src/tool1cd/Class_1CD.cpp | 14 ++++++++++++++
 src/tool1cd/Class_1CD.h   |  1 +
 src/tool1cd/Table.cpp     |  1 +
 3 files changed, 16 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index bb8c0e7..4f00e1d 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -632,6 +632,20 @@ void T_1CD::flush()
 	memBlockManager.flush();
 }
 
+//---------------------------------------------------------------------------
+// забывает прочитанные списки файлов; вызывается, когда содержимое таблиц заменено
+void T_1CD::discard_table_files()
+{
+	_supplier_configs.clear();
+	supplier_configs_defined = false;
+	for(TableFiles **table_files : {&_files_config, &_files_configsave, &_files_params, &_files_files,
+			&_files_configcas, &_files_configcassave})
+	{
+		delete *table_files;
+		*table_files = nullptr;
+	}
+}
+
 //---------------------------------------------------------------------------
 
 void T_1CD::find_lost_objects()
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 117f0da..0dc5225 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -228,6 +228,7 @@ public:
 	bool get_readonly();
 	void set_readonly(bool ro);
 	void flush();
+	void discard_table_files();
 
 	bool test_stream_format();
 	bool test_list_of_tables(); // проверка списка таблиц (по DBNames)
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index b4b59c3..354374f 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1167,6 +1167,7 @@ bool Table::import_table(const boost::filesystem::path &path)
 	numrecords_found = 0;
 	read_index_offsets();
 	if(!num_indexes) fill_records_index();
+	base->discard_table_files();
 	return true;
 }
 
-- 
2.43.0


From 90bb72bab356ecd0246e19a0af38fd1347ab3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 085/112] fix: a directory given as the log file was removed
 with all its contents

---
 src/tool1cd/Messenger.cpp                    | 2 +-
 src/tool1cd/SystemClasses/System.IOUtils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index 7d19669..b535554 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -83,7 +83,7 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 void Messenger::setlogfile(const string &_logfile)
 {
 	logfile = System::Ioutils::TPath::GetFullPath(_logfile);
-	if(FileExists(logfile)) DeleteFile(logfile);
+	if(boost::filesystem::is_regular_file(boost::filesystem::path(logfile))) DeleteFile(logfile);
 }
 
 void Messenger::set_log_level(const MessageState _minimal_state)
diff --git a/src/tool1cd/SystemClasses/System.IOUtils.cpp b/src/tool1cd/SystemClasses/System.IOUtils.cpp
index 7f268d0..ac94880 100644
--- a/src/tool1cd/SystemClasses/System.IOUtils.cpp
+++ b/src/tool1cd/SystemClasses/System.IOUtils.cpp
@@ -38,7 +38,7 @@ bool FileExists(const std::string &filename)
 
 void DeleteFile(const std::string &filename)
 {
-	boost::filesystem::remove_all(filename);
+	boost::filesystem::remove(filename);
 }
 
 void RemoveDir(const std::string &dirname)
-- 
2.43.0


From f8aea98356075fcd27c549e7c23992405dd63162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 086/112] fix: wrong values and keys are reported in the log
 file wherever -l stands

---
 src/ctool1cd/App.cpp              | 15 +++++++++------
 src/ctool1cd/ParseCommandLine.cpp |  8 +++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index d065cea..e79c7b3 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -599,6 +599,15 @@ int App::Run()
 		return 0;
 	}
 
+	// Сообщения об остальных ключах должны попасть в лог-файл
+	for (const auto &pc : commands) {
+		if (pc.command == Command::no_verbose) {
+			mess.setnoverbose(true);
+		} else if (pc.command == Command::logfile) {
+			mess.setlogfile(pc.param1);
+		}
+	}
+
 	// Первый цикл просмотра команд для определения ключей параметров
 	for (const auto &pc : commands) {
 		switch (pc.command) {
@@ -606,15 +615,9 @@ int App::Run()
 				cout << comm.gethelpstring() << endl;
 				comm.report_errors();
 				return 0;
-			case Command::no_verbose:
-				mess.setnoverbose(true);
-				break;
 			case Command::quit:
 				//quit = true;
 				break;
-			case Command::logfile:
-				mess.setlogfile(pc.param1);
-				break;
 			case Command::not_exclusively:
 				ActionOpenBaseNotMonopolyChecked = true;
 				break;
diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index ab3edf7..29d3a8b 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -183,7 +183,13 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 	{
 		std::string param = szArglist[i];
 		if (!param.empty() && param.front() == '-') {
-			param = LowerCase(param.substr(1, param.size() - 1));
+			try {
+				param = LowerCase(param.substr(1, param.size() - 1));
+			} catch (const std::exception &ex) {
+				// ключ не в кодировке UTF-8
+				errors.push_back({"Неизвестный ключ командной строки.", {{"Ключ", param}, {"Ошибка", ex.what()}}});
+				continue;
+			}
 			int j;
 			for (j = 0; j < numdef; j++) {
 				if (Equal(param, definitions[j].key)) {
-- 
2.43.0


From dcbd19048e38b801763561ca2f6bbcfbee22d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 087/112] fix: files of BLOB values were created inside each
 other, shared names and left the directory

---
 src/tool1cd/Common.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++
 src/tool1cd/Common.h   |  3 +++
 src/tool1cd/Table.cpp  | 27 ++++++++-----------------
 3 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index a14feab..21a371f 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -160,6 +160,51 @@ std::string toXML(const std::string &in)
 	return result;
 }
 
+//---------------------------------------------------------------------------
+// имя файла, которое не может указывать на другой каталог
+std::string safe_file_name(const std::string &name)
+{
+	const size_t MAX_FILE_NAME_LEN = 200;
+
+	string result(name);
+	for (char &c : result) {
+		if (c == '/' || c == '\\' || static_cast<unsigned char>(c) < ' ') {
+			c = '_';
+		}
+	}
+	if (result.size() > MAX_FILE_NAME_LEN) {
+		size_t len = MAX_FILE_NAME_LEN;
+		while (len && (result[len] & 0xc0) == 0x80) { // не разрываем символ UTF-8
+			len--;
+		}
+		result.resize(len);
+	}
+	if (result.empty() || result == "." || result == "..") {
+		result += "_";
+	}
+	return result;
+}
+
+//---------------------------------------------------------------------------
+// безопасное имя файла, отличающееся от всех использованных ранее
+std::string unique_file_name(const std::string &name, std::set<std::string> &used)
+{
+	auto key = [](const string &file_name) {
+#ifdef _WIN32
+		return LowerCase(file_name);
+#else
+		return file_name;
+#endif
+	};
+
+	const string safe_name = safe_file_name(name);
+	string result = safe_name;
+	for (unsigned int number = 2; !used.insert(key(result)).second; number++) {
+		result = safe_name + "_" + to_string(number);
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 unsigned char from_hex_digit(char digit)
 {
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 0002089..5d56b16 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -25,6 +25,7 @@
 #include "SystemClasses/TStream.hpp"
 #include "SystemClasses/System.hpp"
 #include <boost/filesystem.hpp>
+#include <set>
 #include <sstream>
 #include <iomanip>
 
@@ -38,6 +39,8 @@ std::string date_to_string(const void *bytedate);
 std::string hexstring(const char *buf, int n);
 std::string hexstring(TStream *str);
 std::string toXML(const std::string &in);
+std::string safe_file_name(const std::string &name);
+std::string unique_file_name(const std::string &name, std::set<std::string> &used);
 unsigned char from_hex_digit(char digit);
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 354374f..0454336 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -825,7 +825,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	uint32_t j, numr, nr;
 	bool canwriteblob = false;
 	Index* curindex = nullptr;
-	int32_t repeat_count; // количество повторов имени записи подряд (для случая, если индекс не уникальный)
+	std::set<std::string> blob_file_names; // использованные имена файлов (ключи записей могут совпадать)
 
 	char UnicodeHeader[3] = {'\xef', '\xbb', '\xbf'}; // BOM UTF-8
 	string part1 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"";
@@ -887,7 +887,6 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	msreg_g.Status(status);
 
 	recname = "";
-	repeat_count = 0;
 	bool dircreated = false;
 	boost::filesystem::path dir(_filename + ".blob");
 
@@ -902,13 +901,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		else nr = recordsindex[j];
 		std::shared_ptr<TableRecord> rec (get_record(nr));
 		if (image_count && blob_to_file) {
-			std::string filename = get_file_name_for_record(rec.get());
-			if (EqualIC(filename, recname)) {
-				repeat_count++;
-			} else {
-				recname = filename;
-				repeat_count = 0;
-			}
+			recname = get_file_name_for_record(rec.get());
 		}
 		for (auto field : fields) {
 			string outputvalue;
@@ -931,7 +924,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						}
 					}
 					catch(...) {
-						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Warning)
+						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Error)
 							.with("Таблица", name)
 							.with("Путь", dir.string());
 					}
@@ -940,23 +933,19 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 				if(canwriteblob)
 				{
 					outputvalue = recname;
-					if(image_count > 1)
+					if(image_count > 1 || outputvalue.empty())
 					{
 						if (outputvalue.size()) {
 							outputvalue += "_";
 						}
 						outputvalue += field->get_name();
 					}
-					if(repeat_count)
-					{
-						outputvalue += "_";
-						outputvalue += repeat_count + 1;
-					}
-
-					dir /= outputvalue;
-					if(!field->save_blob_to_file(rec.get(), dir.string(), unpack)) {
+					outputvalue = unique_file_name(outputvalue, blob_file_names);
+					if(!field->save_blob_to_file(rec.get(), (dir / outputvalue).string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
+					} else {
+						outputvalue = toXML(outputvalue);
 					}
 				}
 				else outputvalue = "{ERROR}";
-- 
2.43.0


From 4c6afca4e2d21636df4c5ce6565709e86f9e4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 088/112] fix: stored values without data, with wrong lengths
 or masks were exported with other contents

---
 src/tool1cd/Field.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6ba11ab..0b2b1da 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -19,6 +19,8 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <cstring>
+
 #include "Field.h"
 #include "Base64.h"
 #include "TempStream.h"
@@ -280,7 +282,17 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			blob_stream->Seek(0, soFromBeginning);
 			blob_stream->Read(_bb, stream_size);
 
-			size_t xor_mask_size = _bb[0];
+			size_t xor_mask_size = static_cast<uint8_t>(_bb[0]);
+			if(xor_mask_size == 0 || xor_mask_size >= stream_size)
+			{
+				// данные не зашифрованы
+				TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
+				temp_stream.WriteBuffer(_bb, stream_size);
+				delete[] _bb;
+				delete _s;
+				delete blob_stream;
+				return true;
+			}
 			char *_xor_mask = &_bb[1];
 			char *_xor_buf = &_xor_mask[xor_mask_size];
 			size_t data_size = stream_size - xor_mask_size - 1;
@@ -359,7 +371,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 	}
 	else /*if(tab->get_issystem())*/
 	{
-		char _buf[16];
+		alignas(8) char _buf[16];
 		_s->CopyFrom(blob_stream, 0);
 		blob_stream->Seek(0, soFromBeginning);
 		if(blob_stream->Read(_buf, 2) >= 2) if((_buf[0] == 1 || _buf[0] == 2) && _buf[1] == 1)
@@ -369,7 +381,8 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			bool isOK = true;
 			if(_buf[0] == 1) // неупакованное хранилище
 			{
-				_s2->CopyFrom(blob_stream, blob_stream->GetSize() - 2);
+				// нулевое количество означало бы копирование всего потока
+				if(blob_stream->GetSize() > 2) _s2->CopyFrom(blob_stream, blob_stream->GetSize() - 2);
 			}
 			else
 			{
@@ -393,11 +406,11 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			if(isOK)
 			{
 				_s2->Seek(0, soFromBeginning);
-				if(_s2->Read(_buf, 8) < 8) isOK = false;
+				if(_s2->Read(_buf, 8) < 8 || *(int64_t*)_buf < 0) isOK = false;
 				else
 				{
 					_s->SetSize(0);
-					_s->CopyFrom(_s2, _s2->GetSize() - 8);
+					if(_s2->GetSize() > 8) _s->CopyFrom(_s2, _s2->GetSize() - 8);
 				}
 
 			}
@@ -413,11 +426,11 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 					_s2->Seek(0, soFromBeginning);
 					if(_s2->Read(_buf, 12) >= 12)
 					{
-						len1C = *(int64_t*)&_buf[4];
-						if(len1C <= _s2->GetSize() - 12)
+						memcpy(&len1C, &_buf[4], sizeof(len1C));
+						if(len1C >= 0 && len1C <= _s2->GetSize() - 12)
 						{
 							_s->SetSize(0);
-							_s->CopyFrom(_s2, len1C);
+							if(len1C) _s->CopyFrom(_s2, len1C);
 						}
 					}
 				}
-- 
2.43.0


From 85b75e213a26b97403b98471a6597d158dfdd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 089/112] fix: -dc twice with -ib in between used freed lists
 of files

---
 src/tool1cd/Class_1CD.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 4f00e1d..562b7d9 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -638,6 +638,10 @@ void T_1CD::discard_table_files()
 {
 	_supplier_configs.clear();
 	supplier_configs_defined = false;
+	delete cs_config;
+	cs_config = nullptr;
+	delete cs_configsave;
+	cs_configsave = nullptr;
 	for(TableFiles **table_files : {&_files_config, &_files_configsave, &_files_params, &_files_files,
 			&_files_configcas, &_files_configcassave})
 	{
-- 
2.43.0


From ea95b484e0eed5ab9a1095e7f6a9c5e4cfdabe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 090/112] fix: empty packed values were exported as a container
 header

---
 src/tool1cd/Field.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 0b2b1da..8164934 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -355,8 +355,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				}
 			}
 
-			V8Catalog *cat = new V8Catalog(_sx2, zippedContainer, true);
-			if(!cat->get_first())
+			// пустой поток контейнер дополнил бы собственным заголовком
+			V8Catalog *cat = _sx2->GetSize() ? new V8Catalog(_sx2, zippedContainer, true) : nullptr;
+			if(!cat || !cat->get_first())
 			{
 				TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
 				temp_stream.CopyFrom(_sx2, 0);
-- 
2.43.0


From 93b11d50640934b38c07934901f058fe9a1f0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 091/112] fix: files of containers were saved outside the
 output directory

---
 src/tool1cd/cfapi/V8Catalog.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6c07266..81ff772 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include <array>
+#include <set>
 #include <algorithm>
 
 #include "V8Catalog.h"
@@ -905,14 +906,16 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 		boost::filesystem::create_directories(dir);
 	}
 	Lock->Acquire();
+	std::set<std::string> used_names; // имена файлов контейнера могут быть недопустимыми или совпадать
 	V8File* f = first;
 	while(f)
 	{
+		const boost::filesystem::path path = dir / unique_file_name(f->get_file_name(), used_names);
 		if(f->is_catalog()) {
-			f->get_catalog()->SaveToDir(dir / f->get_file_name());
+			f->get_catalog()->SaveToDir(path);
 		}
 		else {
-			f->save_to_file(dir / f->get_file_name());
+			f->save_to_file(path);
 		}
 		f->close();
 		f = f->get_next();
-- 
2.43.0


From e1c525f734bb574ffc54f559d68e83186d0095d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 092/112] fix: containers packed twice with unpacked files
 could not be exported

---
 src/tool1cd/Field.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 8164934..7553844 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -215,6 +215,20 @@ void Field::set_offset(const int32_t value)
 }
 
 //---------------------------------------------------------------------------
+// распаковываются ли все файлы контейнера, открытого как сжатый
+static bool all_files_zipped(V8Catalog *cat)
+{
+	try {
+		for(V8File *file = cat->get_first(); file; file = file->get_next()) {
+			file->open();
+			file->close();
+		}
+	} catch (ZError &) {
+		return false;
+	}
+	return true;
+}
+
 bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filename, bool unpack) const
 {
 	TStream* blob_stream;
@@ -357,6 +371,11 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 
 			// пустой поток контейнер дополнил бы собственным заголовком
 			V8Catalog *cat = _sx2->GetSize() ? new V8Catalog(_sx2, zippedContainer, true) : nullptr;
+			if(cat && zippedContainer && !all_files_zipped(cat))
+			{
+				delete cat;
+				cat = new V8Catalog(_sx2, false, true);
+			}
 			if(!cat || !cat->get_first())
 			{
 				TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
-- 
2.43.0


From d2f7e9a6238842f28583b7504647d5d951c0e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 093/112] fix: lost objects of format 8.3.8 were not found,
 pages of used objects were taken for objects

---
 src/tool1cd/Class_1CD.cpp | 133 +++++++++++++++++++++++++++-----------
 src/tool1cd/Class_1CD.h   |   1 +
 src/tool1cd/V8Object.cpp  |  57 ++++++++++++++++
 src/tool1cd/V8Object.h    |   3 +
 4 files changed, 157 insertions(+), 37 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 562b7d9..6b913ed 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -20,6 +20,8 @@
 */
 
 #include <algorithm>
+#include <map>
+#include <set>
 #include <vector>
 #include "SystemClasses/System.IOUtils.hpp"
 #include <boost/filesystem.hpp>
@@ -652,33 +654,103 @@ void T_1CD::discard_table_files()
 
 //---------------------------------------------------------------------------
 
-void T_1CD::find_lost_objects()
+std::vector<uint32_t> T_1CD::get_lost_objects()
 {
-	uint32_t i;
-	char buf[8];
-	V8Object* v8obj;
-	bool block_is_find;
+	// Страница данных тоже может начинаться с сигнатуры объекта, поэтому занятые страницы исключаются
+	std::vector<bool> used(length, false);
+	std::vector<bool> is_free(length, false);
+	used[0] = true;
+	for(auto v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next()) {
+		if(v8obj->get_base() != this) {
+			continue;
+		}
+		used.at(v8obj->get_block_number()) = true;
+		for(auto block_number : v8obj->get_used_blocks()) {
+			used.at(block_number) = true;
+		}
+	}
+	for(auto block_number : free_blocks->get_free_blocks()) {
+		is_free.at(block_number) = true;
+	}
 
-	for(i = 1; i < length; i++)
-	{
-		get_block(buf, i, 8);
-		if(memcmp(buf, SIG_OBJ, 8) == 0)
-		{
-			block_is_find = false;
-			for(v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next())
-			{
-				if(v8obj->get_block_number() == i)
-				{
-					block_is_find = true;
-					break;
-				}
+	std::map<uint32_t, std::set<uint32_t>> candidates; // страницы ненайденных в списке объектов
+	for(uint32_t i = 1; i < length; i++) {
+		const char *buf = get_block(i);
+		const bool is_object = version < db_ver::ver8_3_8_0
+				? memcmp(buf, SIG_OBJ, sizeof(SIG_OBJ)) == 0
+				: buf[0] == 0x1c && static_cast<unsigned char>(buf[1]) == 0xfd;
+		if(!is_object || used[i]) {
+			continue;
+		}
+		try {
+			const std::vector<uint32_t> blocks = V8Object(this, i).get_used_blocks();
+			const std::set<uint32_t> unique_blocks(blocks.begin(), blocks.end());
+			if(unique_blocks.size() != blocks.size() || *unique_blocks.begin() < 3 || *unique_blocks.rbegin() >= length) {
+				throw DetailedException("Неправильные номера страниц объекта");
+			}
+			candidates[i] = unique_blocks;
+		} catch (DetailedException &ex) {
+			if(!is_free[i]) {
+				msreg_m.AddMessage("Страница с сигнатурой объекта не является объектом", MessageState::Info)
+						.with("Номер блока", to_hex_string(i))
+						.with("Причина", string(ex.what()));
+			}
+		}
+	}
+
+	// Страницы потерянных объектов также могут быть похожи на заголовки объектов.
+	// Остатки удалённых объектов на свободных страницах ничего не занимают
+	std::map<uint32_t, std::vector<uint32_t>> owners;
+	for(auto &candidate : candidates) {
+		if(is_free[candidate.first]) {
+			continue;
+		}
+		for(auto block_number : candidate.second) {
+			if(block_number != candidate.first && candidates.count(block_number)) {
+				owners[block_number].push_back(candidate.first);
+			}
+		}
+	}
+	std::set<uint32_t> lost, not_objects;
+	bool changed = true;
+	while(changed) {
+		changed = false;
+		for(auto &candidate : candidates) {
+			const uint32_t block_number = candidate.first;
+			if(lost.count(block_number) || not_objects.count(block_number)) {
+				continue;
+			}
+			bool owned = false, may_be_owned = false;
+			for(auto owner : owners[block_number]) {
+				owned = owned || lost.count(owner);
+				may_be_owned = may_be_owned || !not_objects.count(owner);
 			}
-			if (!block_is_find) {
-				msreg_m.AddMessage("Найден потерянный объект", MessageState::Info)
-						.with("Номер блока", to_hex_string(i));
+			if(owned) {
+				not_objects.insert(block_number);
+				changed = true;
+			} else if(!may_be_owned) {
+				lost.insert(block_number);
+				changed = true;
 			}
 		}
 	}
+
+	std::vector<uint32_t> result;
+	for(auto &candidate : candidates) {
+		if(!not_objects.count(candidate.first)) {
+			result.push_back(candidate.first);
+		}
+	}
+	return result;
+}
+
+//---------------------------------------------------------------------------
+void T_1CD::find_lost_objects()
+{
+	for(auto block_number : get_lost_objects()) {
+		msreg_m.AddMessage("Найден потерянный объект", MessageState::Info)
+				.with("Номер блока", to_hex_string(block_number));
+	}
 	msreg_m.AddMessage("Поиск потерянных объектов завершен", MessageState::Succesfull);
 }
 
@@ -1950,22 +2022,9 @@ void T_1CD::find_and_create_lost_tables()
 //---------------------------------------------------------------------------
 void T_1CD::find_and_save_lost_objects(boost::filesystem::path &lost_objects)
 {
-	for(uint32_t i = 1; i < length; i++) {
-		char buf[8];
-		get_block(buf, i, 8);
-		if(memcmp(buf, SIG_OBJ, 8) == 0) {
-			bool block_is_find = false;
-			for(auto v8obj = V8Object::get_first(); v8obj; v8obj = v8obj->get_next()) {
-				if(v8obj->get_block_number() == i) {
-					block_is_find = true;
-					break;
-				}
-			}
-			if(!block_is_find) {
-				unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
-				find_v8obj->savetofile(lost_objects.string() + "block" + to_string(i));
-			}
-		}
+	for(auto block_number : get_lost_objects()) {
+		V8Object lost_object(this, block_number);
+		lost_object.savetofile(lost_objects / ("block" + to_string(block_number)));
 	}
 	msreg_m.AddMessage("Поиск и сохранение потерянных объектов завершен", MessageState::Succesfull);
 
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 0dc5225..64c534c 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -234,6 +234,7 @@ public:
 	bool test_list_of_tables(); // проверка списка таблиц (по DBNames)
 	void find_lost_objects();
 	void find_and_save_lost_objects(boost::filesystem::path &lost_objects);
+	std::vector<uint32_t> get_lost_objects(); // номера заголовочных страниц объектов, на которые никто не ссылается
 	bool create_table(const std::string &path); // создание таблицы из файлов импорта таблиц
 	bool delete_table(Table* tab);
 	bool delete_object(V8Object* ob);
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 856e417..3532525 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1383,6 +1383,63 @@ uint32_t V8Object::get_block_by_index(const uint32_t index) const
 	return blocks[index];
 }
 
+//---------------------------------------------------------------------------
+const T_1CD* V8Object::get_base() const
+{
+	return base;
+}
+
+//---------------------------------------------------------------------------
+std::vector<uint32_t> V8Object::get_used_blocks() const
+{
+	std::vector<uint32_t> used(1, block);
+	used.insert(used.end(), blocks.begin(), blocks.end());
+
+	const bool is_data80 = type == v8objtype::data80;
+	if(!is_data80 && (type != v8objtype::data838 || fatlevel == 0)) {
+		return used; // страницы данных перечислены прямо в заголовке
+	}
+	if(!is_data80 && fatlevel != 1)
+	{
+		throw DetailedException("Неизвестный уровень таблицы размещения")
+			.add_detail("Номер блока объекта", to_hex_string(block))
+			.add_detail("Уровень", to_string(fatlevel));
+	}
+
+	const uint64_t pagesize = base->get_pagesize();
+	const uint64_t blocksperpage = is_data80 ? 1023 : pagesize / sizeof(uint32_t);
+	uint64_t remain = len ? (len - 1) / pagesize + 1 : 0;
+	for(auto fat_block : blocks) {
+		const uint64_t count = std::min(remain, blocksperpage);
+		const char *fat = base->get_block(fat_block);
+		const uint32_t *data_blocks = reinterpret_cast<const objtab838*>(fat)->blocks;
+		if(is_data80) {
+			const objtab *tab = reinterpret_cast<const objtab*>(fat);
+			if(tab->numblocks < 0 || static_cast<uint64_t>(tab->numblocks) < count) {
+				throw DetailedException("Ошибка чтения объекта. Размещено меньше данных, чем длина объекта.")
+					.add_detail("Номер блока объекта", to_hex_string(block))
+					.add_detail("Длина объекта", len);
+			}
+			data_blocks = tab->blocks;
+		}
+		used.insert(used.end(), data_blocks, data_blocks + count);
+		remain -= count;
+	}
+	return used;
+}
+
+//---------------------------------------------------------------------------
+std::vector<uint32_t> V8Object::get_free_blocks() const
+{
+	std::vector<uint32_t> result;
+	const uint64_t numbers_per_block = base->get_pagesize() / sizeof(uint32_t);
+	for(uint64_t i = 0; i < len && i / numbers_per_block < blocks.size(); i++) {
+		const char *numbers = base->get_block(blocks[i / numbers_per_block]);
+		result.push_back(reinterpret_cast<const uint32_t*>(numbers)[i % numbers_per_block]);
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 void V8Object::write_new_version()
 {
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index 33dc8cf..df225f9 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -133,6 +133,9 @@ public:
 	uint32_t get_block_number() const;
 	uint32_t get_numblocks() const;
 	uint32_t get_block_by_index(const uint32_t index) const;
+	const T_1CD* get_base() const;
+	std::vector<uint32_t> get_used_blocks() const; // номера всех страниц, занятых объектом (вместе с таблицами размещения)
+	std::vector<uint32_t> get_free_blocks() const; // номера свободных страниц (только для таблицы свободных страниц)
 	TStream* readBlob(TStream* _str, uint32_t _startblock, uint32_t _length = UINT_MAX, bool rewrite = true);
 
 private:
-- 
2.43.0


From 2dc5cf2a7878dbf523b25c1edce1b46361b52036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 094/112] fix: failing opens, seeks and writes of files were
 not noticed

---
 src/tool1cd/SystemClasses/Exception.hpp   |  9 +++++
 src/tool1cd/SystemClasses/TFileStream.cpp | 44 ++++++++++++++---------
 src/tool1cd/SystemClasses/TFileStream.hpp |  5 +++
 src/tool1cd/SystemClasses/TStream.cpp     | 28 ++++++++++-----
 src/tool1cd/SystemClasses/TStream.hpp     |  3 ++
 src/tool1cd/cfapi/V8Catalog.cpp           |  4 +++
 6 files changed, 69 insertions(+), 24 deletions(-)

diff --git a/src/tool1cd/SystemClasses/Exception.hpp b/src/tool1cd/SystemClasses/Exception.hpp
index 3aeea5b..cc3379f 100644
--- a/src/tool1cd/SystemClasses/Exception.hpp
+++ b/src/tool1cd/SystemClasses/Exception.hpp
@@ -78,6 +78,15 @@ protected:
     std::string msg_;
 };
 
+// ошибка ввода-вывода
+class IOException : public Exception
+{
+public:
+	explicit IOException(const std::string &message)
+		: Exception(message)
+	{}
+};
+
 } // System
 
 #endif
diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 2967e58..de2703c 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -19,6 +19,9 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include "TFileStream.hpp"
+#include "Exception.hpp"
+#include <cerrno>
+#include <cstring>
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
@@ -26,27 +29,38 @@ namespace System {
 
 namespace Classes {
 
-TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
-	: TWrapperStream(), filename(FileName)
+static std::ios_base::openmode open_mode(const uint16_t fileMode)
+{
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
+	if (fileMode == fmCreate || (fileMode & 3) != fmOpenRead) {
+		mode |= std::ios::out;
+	}
+	return mode;
+}
+
+void TFileStream::open(std::ios_base::openmode mode)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
+	errno = 0;
+	auto stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	if (!stream->is_open()) {
+		const std::string reason(std::strerror(errno));
+		throw IOException("Can't open file " + filename + ": " + reason);
 	}
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	_stream = stream;
 	reopen(_stream);
+}
+
+TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
+	: TWrapperStream(), filename(FileName), m_mode(open_mode(fileMode))
+{
+	open(fileMode == fmCreate ? m_mode | std::ios::trunc : m_mode);
 	m_position = 0;
 }
 
 TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fileMode)
-	: TWrapperStream(), filename(path.string())
+	: TWrapperStream(), filename(path.string()), m_mode(open_mode(fileMode))
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
-	}
-	_stream = std::make_shared<boost::filesystem::fstream>(path, mode);
-	reopen(_stream);
+	open(fileMode == fmCreate ? m_mode | std::ios::trunc : m_mode);
 	m_position = 0;
 }
 
@@ -68,9 +82,7 @@ void TFileStream::Reopen()
 			return;
 		}
 	}
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
-	reopen(_stream);
+	open(m_mode);
 }
 
 
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index 4d960c7..86245b4 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -59,6 +59,11 @@ public:
 protected:
 	std::string filename;
 	std::shared_ptr<std::fstream> _stream;
+
+private:
+	std::ios_base::openmode m_mode;
+
+	void open(std::ios_base::openmode mode);
 };
 
 } // Classes
diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index aaecb33..ab73e31 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -21,6 +21,7 @@
 #include "TStream.hpp"
 #include "Exception.hpp"
 #include <algorithm>
+#include <cerrno>
 #include <cstring>
 
 using namespace std;
@@ -199,24 +200,35 @@ void TWrapperStream::reopen(const std::shared_ptr<std::iostream> &stream)
 
 void TWrapperStream::init_size()
 {
+	errno = 0;
 	_stream->seekg(0, std::ios_base::end);
 	m_size = _stream->tellg();
 	_stream->seekg(0, std::ios_base::beg);
-	if (m_size < 0) {
+	if (_stream->fail() || m_size < 0) {
 		m_size = 0;
+		check_stream();
 	}
 }
 
 
+void TWrapperStream::check_stream() const
+{
+	const string err(errno ? std::strerror(errno) : "Input/output error");
+	std::cerr << err << std::endl;
+	throw IOException(err);
+}
+
 int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 {
 	_stream->clear();
+	errno = 0;
 	_stream->seekg(GetPosition(), std::ios_base::beg);
+	if (_stream->fail()) {
+		check_stream();
+	}
 	_stream->read((char*)Buffer, Count);
 	if (_stream->bad()) {
-		std::string err(std::strerror(errno));
-		std::cerr << err << std::endl;
-		throw Exception(err);
+		check_stream();
 	}
 	auto data_read = _stream->gcount();
 	m_position += data_read;
@@ -225,13 +237,13 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
+	_stream->clear();
+	errno = 0;
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
-	if (_stream->bad()) {
-		string err(std::strerror(errno));
-		std::cerr << err << std::endl;
-		throw Exception(err);
+	if (_stream->fail()) {
+		check_stream();
 	}
 
 	m_position += Count;
diff --git a/src/tool1cd/SystemClasses/TStream.hpp b/src/tool1cd/SystemClasses/TStream.hpp
index 091a4f2..c714a57 100644
--- a/src/tool1cd/SystemClasses/TStream.hpp
+++ b/src/tool1cd/SystemClasses/TStream.hpp
@@ -106,6 +106,9 @@ protected:
 
 	void init_size();
 
+	// сообщает об ошибке ввода-вывода исключением
+	void check_stream() const;
+
 public:
 
 	virtual int64_t Read(void *Buffer, int64_t Count) override ;
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 81ff772..f7fb998 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -415,6 +415,10 @@ void V8Catalog::initialize()
 			}
 		}
 	}
+	catch (const IOException &)
+	{
+		throw;
+	}
 	catch(...)
 	{
 		f = first;
-- 
2.43.0


From 693e276e7ef6e2b020a7d624632c8ef8a772661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 095/112] fix: a page of the database read only in part was
 used as it was

---
 src/tool1cd/MemBlock.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/MemBlock.cpp b/src/tool1cd/MemBlock.cpp
index 5c37e22..09da316 100644
--- a/src/tool1cd/MemBlock.cpp
+++ b/src/tool1cd/MemBlock.cpp
@@ -22,19 +22,26 @@
 #include "MemBlock.h"
 #include "Constants.h"
 #include "SystemClasses/GetTickCount.hpp"
+#include "SystemClasses/Exception.hpp"
+
+static void read_page(std::shared_ptr<TFileStream> &fs, std::vector<char> &buf)
+{
+	if (fs->ReadBuffer(buf.data(), buf.size()) != static_cast<int64_t>(buf.size())) {
+		throw System::IOException("Page of the database is not readable");
+	}
+}
 
 std::shared_ptr<MemBlock> MemBlock::create(std::shared_ptr<TFileStream> &fs, uint32_t page_size, uint32_t block_num,
 bool for_write, bool read)
 {
-	auto buf = new char[page_size];
+	std::vector<char> buf(page_size, 0);
 	if(for_write)
 	{
 		uint32_t fnumblocks = fs->GetSize() / page_size;
 		if(fnumblocks <= block_num)
 		{
-			memset(buf, 0, page_size);
 			fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-			fs->WriteBuffer(buf, page_size);
+			fs->WriteBuffer(buf.data(), page_size);
 			fs->Seek(12, (TSeekOrigin)soFromBeginning);
 			fs->WriteBuffer(&block_num, sizeof(uint32_t));
 		}
@@ -43,19 +50,18 @@ bool for_write, bool read)
 			if(read)
 			{
 				fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-				fs->ReadBuffer(buf, page_size);
+				read_page(fs, buf);
 			}
-			else memset(buf, 0, page_size);
 		}
 	}
 	else
 	{
 		fs->Seek((int64_t)block_num * page_size, (TSeekOrigin)soFromBeginning);
-		fs->ReadBuffer(buf, page_size);
+		read_page(fs, buf);
 	}
 
 	std::shared_ptr<MemBlock> block(new MemBlock(page_size, block_num));
-	std::copy(buf, buf + page_size, std::begin(block->data));
+	std::copy(buf.begin(), buf.end(), std::begin(block->data));
 	return block;
 
 }
@@ -119,7 +125,6 @@ void MemBlockManager::create_memblocks(uint64_t _numblocks)
 {
 	memblocks.clear();
 	memblocks.resize(_numblocks);
-	memset(memblocks.data(), 0, memblocks.size() * sizeof(MemBlock *));
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 0a48e79ce725cd530d3df3baf964c73a2d8c32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 096/112] fix: messages not written to the log file were lost
 silently

---
 src/tool1cd/Messenger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b535554..06cfc13 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -77,6 +77,12 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 		}
 	}
 	output->flush();
+	if (!*output) {
+		if (!noverbose) {
+			cerr << "Не удалось записать сообщение" << endl;
+		}
+		has_error = true;
+	}
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 8e249a4912d30b08c3742830d9c4c20219ddf4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 097/112] fix: a root file that could not be written did not
 fail the binary export

---
 src/tool1cd/Table.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 0454336..28100e2 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1073,10 +1073,9 @@ void Table::export_table(const boost::filesystem::path &path) const
 	}
 	else root.has_descr = false;
 
-	try {
-		TFileStream f(dir / "root", fmCreate|fmShareDenyNone);
+	{
+		TFileStream f(dir / "root", fmCreate);
 		f.Write(&root, sizeof(export_import_table_root));
-	} catch(...) {
 	}
 
 	if (file_data) {
-- 
2.43.0


From 2541acf28c2424ec48c75d20b23afc3ffa574a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 098/112] fix: read errors of packed files were taken for a
 missing or another format

---
 src/tool1cd/Field.cpp             |  6 +++---
 src/tool1cd/PackDirectory.cpp     | 13 ++++---------
 src/tool1cd/save_depot_config.cpp |  2 +-
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 7553844..b36ea93 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -337,7 +337,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				delete blob_stream;
 				blob_stream = nullptr;
 			}
-			catch (...)
+			catch (const ZError &)
 			{
 				_sx2 = blob_stream;
 				delete _s;
@@ -360,7 +360,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 					delete _sx;
 					_sx = nullptr;
 				}
-				catch (...)
+				catch (const ZError &)
 				{
 					_sx2 = _sx;
 					_sx = nullptr;
@@ -416,7 +416,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 						{
 							ZInflateStream(blob_stream, _s2);
 						}
-						catch(...)
+						catch (const ZError &)
 						{
 							isOK = false;
 						}
diff --git a/src/tool1cd/PackDirectory.cpp b/src/tool1cd/PackDirectory.cpp
index e37d312..146c889 100644
--- a/src/tool1cd/PackDirectory.cpp
+++ b/src/tool1cd/PackDirectory.cpp
@@ -94,14 +94,9 @@ TStream* PackDirectory::get_data(const std::string &datahash, bool &found)
 		return nullptr;
 	}
 
-	try
-	{
-		TStream *buffer = new TFileStream(data_path, fmOpenRead | fmShareDenyNone);
-		found = true;
-		buffer->Close();
-		return buffer;
-	} catch (...) {
-	}
-	return nullptr;
+	TStream *buffer = new TFileStream(data_path, fmOpenRead | fmShareDenyNone);
+	found = true;
+	buffer->Close();
+	return buffer;
 }
 
diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 82df68a..c7419c5 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -540,7 +540,7 @@ bool T_1CD::try_save_snapshot(const TableRecord &version_record,
 			try {
 				ZInflateStream(in.get(), out.get());
 			}
-			catch(...) {
+			catch (const ZError &) {
 				msreg_m.AddMessage("Не удалось распаковать файл снэпшота", MessageState::Warning)
 									.with("Имя файла", file_snap.string())
 									.with("Требуемая версия", ver);
-- 
2.43.0


From 1165260f004f0942b82a3798e56ec69b7efe7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 099/112] fix: concurrent runs deleted each other's temporary
 files

---
 src/tool1cd/TempStream.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d9bd472..1511d53 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -33,11 +33,12 @@ TTempStreamStaticInit TempStreamStaticInit;
 
 static void DelayedInitTempPath()
 {
-	TTempStream::tempcat = boost::filesystem::temp_directory_path() / "t1cd";
-	if (boost::filesystem::exists(TTempStream::tempcat)) {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
-	boost::filesystem::create_directory(TTempStream::tempcat);
+	// у каждого процесса свой каталог: процессы не должны удалять временные файлы друг друга
+	boost::filesystem::path path;
+	do {
+		path = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%-%%%%");
+	} while (!boost::filesystem::create_directory(path));
+	TTempStream::tempcat = path;
 }
 
 //---------------------------------------------------------------------------
@@ -51,7 +52,7 @@ TTempStreamStaticInit::TTempStreamStaticInit()
 //---------------------------------------------------------------------------
 TTempStreamStaticInit::~TTempStreamStaticInit()
 {
-	if (!TTempStream::cleanup) {
+	if (!TTempStream::cleanup || TTempStream::tempcat.empty()) {
 		return;
 	}
 	try {
-- 
2.43.0


From aee700f0feab669b7c55993b9ddd4af27f8311a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 100/112] fix: names from the database led outside the output
 directory

---
 src/ctool1cd/App.cpp                   |  7 ++++---
 src/tool1cd/Common.cpp                 | 15 +++++++++++++++
 src/tool1cd/Common.h                   |  1 +
 src/tool1cd/Table.cpp                  |  4 ++--
 src/tool1cd/save_part_depot_config.cpp | 12 +++++++++---
 5 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index e79c7b3..4ff6906 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -125,7 +125,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 
 		tbl->fill_records_index();
 
-		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+		boost::filesystem::path filetable = root_path / (distinct_file_name(tbl->get_name()) + ".xml");
 
 		tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 
@@ -192,7 +192,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		if (b) {
 			tbl->fill_records_index();
 
-			boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+			boost::filesystem::path filetable = root_path / (distinct_file_name(tbl->get_name()) + ".xml");
 			tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 				.with("Таблица", tbl->get_name())
@@ -403,8 +403,9 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 		return;
 	}
 
+	std::set<std::string> file_names;
 	for (auto& supplier_config : base1CD->supplier_configs()) {
-		string file_name = supplier_config->name() + " " + supplier_config->version() + CF_STR;
+		string file_name = unique_file_name(supplier_config->name() + " " + supplier_config->version(), file_names) + CF_STR;
 		boost::filesystem::path cfpath = param_path / file_name;
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 21a371f..3a7c9ba 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -185,6 +185,21 @@ std::string safe_file_name(const std::string &name)
 	return result;
 }
 
+//---------------------------------------------------------------------------
+// безопасное имя файла, зависящее только от исходного имени: разным именам соответствуют разные имена файлов
+std::string distinct_file_name(const std::string &name)
+{
+	const string result = safe_file_name(name);
+	if (result == name) {
+		return result;
+	}
+	uint32_t hash = 2166136261u; // FNV-1a
+	for (const char c : name) {
+		hash = (hash ^ static_cast<unsigned char>(c)) * 16777619u;
+	}
+	return result + "_" + to_hex_string(hash);
+}
+
 //---------------------------------------------------------------------------
 // безопасное имя файла, отличающееся от всех использованных ранее
 std::string unique_file_name(const std::string &name, std::set<std::string> &used)
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 5d56b16..291f973 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -40,6 +40,7 @@ std::string hexstring(const char *buf, int n);
 std::string hexstring(TStream *str);
 std::string toXML(const std::string &in);
 std::string safe_file_name(const std::string &name);
+std::string distinct_file_name(const std::string &name);
 std::string unique_file_name(const std::string &name, std::set<std::string> &used);
 unsigned char from_hex_digit(char digit);
 
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 28100e2..97c6008 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1035,7 +1035,7 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 //---------------------------------------------------------------------------
 void Table::export_table(const boost::filesystem::path &path) const
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / distinct_file_name(name);
 	if(!directory_exists(dir, true)) {
 		return;
 	}
@@ -1096,7 +1096,7 @@ void Table::export_table(const boost::filesystem::path &path) const
 //---------------------------------------------------------------------------
 bool Table::import_table(const boost::filesystem::path &path)
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / distinct_file_name(name);
 
 	if(!directory_exists(dir)) {
 		return false;
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index f846d10..c335442 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -230,6 +230,11 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 		boost::filesystem::create_directories(cath);
 	}
 
+	std::set<std::string> file_names; // созданные файлы
+	if (cath == filepath) {
+		file_names.insert("deleted");
+	}
+
 	lastver = -1;
 	memset(emptyimage, 0, 8);
 
@@ -340,7 +345,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 														.add_detail("Объект", sObjId)
 														.add_detail("Версия", lastver);
 								}
-								TFileStream f(cath / sObjId, fmCreate);
+								TFileStream f(cath / unique_file_name(sObjId, file_names), fmCreate);
 								sobj->Seek(0, soFromBeginning);
 								ZInflateStream(sobj, &f);
 								if(deletesobj) delete sobj;
@@ -437,10 +442,11 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 												cat = new V8Catalog(out, false, true);
 												iscatalog = cat->is_catalog();
 											}
-											if(iscatalog) cat->SaveToDir((cath / ext_name).string());
+											const boost::filesystem::path ext_path = cath / unique_file_name(ext_name, file_names);
+											if(iscatalog) cat->SaveToDir(ext_path);
 											else
 											{
-												TFileStream f(cath / ext_name, fmCreate);
+												TFileStream f(ext_path, fmCreate);
 												f.CopyFrom(out, 0);
 											}
 											delete cat;
-- 
2.43.0


From 92948a9bf9994cbe457cc5552207252b7b69897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 101/112] fix: gtool1cd: show selected values after the index
 has been switched off

---
 src/gtool1cd/table_data_window.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gtool1cd/table_data_window.cpp b/src/gtool1cd/table_data_window.cpp
index 71d6673..7b7de31 100644
--- a/src/gtool1cd/table_data_window.cpp
+++ b/src/gtool1cd/table_data_window.cpp
@@ -118,11 +118,11 @@ void TableDataWindow::on_indexChooseBox_activated(int index)
 	if (index == 0) {
 		// без индекса
 		ui->dataView->setModel(new TableDataModel(table));
-		return;
+	} else {
+		QString index_name = ui->indexChooseBox->itemData(index).toString();
+		Index *table_index = table->get_index(index_name.toStdString());
+		ui->dataView->setModel(new TableDataModel(table, table_index));
 	}
-	QString index_name = ui->indexChooseBox->itemData(index).toString();
-	Index *table_index = table->get_index(index_name.toStdString());
-	ui->dataView->setModel(new TableDataModel(table, table_index));
 
 	connect(ui->dataView->selectionModel(), SIGNAL(selectionChanged(QItemSelection,QItemSelection)),
 	        this, SLOT(dataView_selection_changed(QItemSelection)));
-- 
2.43.0


From 28d6f1f4d4d3a90c2d3eebd8d0835408b5cfabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 102/112] fix: gtool1cd: texts were unpacked as if they were
 binary data

---
 src/gtool1cd/models/table_data_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gtool1cd/models/table_data_model.cpp b/src/gtool1cd/models/table_data_model.cpp
index b9386b9..f9f372a 100644
--- a/src/gtool1cd/models/table_data_model.cpp
+++ b/src/gtool1cd/models/table_data_model.cpp
@@ -91,7 +91,8 @@ QVariant TableDataModel::data(const QModelIndex &index, int role) const
 			TStream *data_stream;
 
 			try {
-				if (!record->try_store_blob_data(f, data_stream, true)) {
+				// упакованными бывают только двоичные данные, текст - это всегда текст
+				if (!record->try_store_blob_data(f, data_stream, f->get_type() == type_fields::tf_image)) {
 					return QString(tr("{Error getting BLOB}"));
 				}
 			} catch (DetailedException &exc) {
@@ -156,7 +157,7 @@ void TableDataModel::dumpBlob(const QModelIndex &index, const QString &filename)
 	        : table->get_record(_index->get_numrec(index.row()));
 
 	TStream *out;
-	if (!record->try_store_blob_data(f, out, true)) {
+	if (!record->try_store_blob_data(f, out, f->get_type() == type_fields::tf_image)) {
 		// TODO: ругнуться
 		return;
 	}
-- 
2.43.0


From c0bc3dc77c7a6c373d9dd156226962420824f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 103/112] fix: gtool1cd: values that cannot be decoded ended
 the program

---
 src/gtool1cd/models/table_data_model.cpp | 26 ++++++++++++++++++------
 src/gtool1cd/table_data_window.cpp       | 16 +++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/gtool1cd/models/table_data_model.cpp b/src/gtool1cd/models/table_data_model.cpp
index f9f372a..bc59b38 100644
--- a/src/gtool1cd/models/table_data_model.cpp
+++ b/src/gtool1cd/models/table_data_model.cpp
@@ -55,6 +55,16 @@ QModelIndex TableDataModel::parent(const QModelIndex &child) const
 }
 
 
+static QString value_presentation(const TableRecord *record, const Field *f)
+{
+	try {
+		return QString::fromStdString(record->get_string(f));
+	} catch (std::exception &exc) {
+		// удалённая запись может содержать что угодно
+		return QString(QObject::tr("{Error getting value}: ")) + QString(exc.what());
+	}
+}
+
 QVariant TableDataModel::data(const QModelIndex &index, int role) const
 {
 	if (!index.isValid()) {
@@ -68,7 +78,7 @@ QVariant TableDataModel::data(const QModelIndex &index, int role) const
 		if (record->is_null_value(f)) {
 			return QString("{NULL}");
 		}
-		return QString::fromStdString(record->get_string(f));
+		return value_presentation(record, f);
 	}
 	if (role == Qt::EditRole) {
 		Field *f = table->get_field(index.column());
@@ -105,10 +115,14 @@ QVariant TableDataModel::data(const QModelIndex &index, int role) const
 			}
 			TMemoryStream *mem = new TMemoryStream;
 			mem->CopyFrom(data_stream, 0);
-			if (f->get_type() == type_fields::tf_image) {
-				return QString::fromStdString(TEncoding::UTF8->toUtf8(mem->GetBytes()));
-			} else {
-				return QString::fromStdString(TEncoding::Unicode->toUtf8(mem->GetBytes()));
+			try {
+				if (f->get_type() == type_fields::tf_image) {
+					return QString::fromStdString(TEncoding::UTF8->toUtf8(mem->GetBytes()));
+				} else {
+					return QString::fromStdString(TEncoding::Unicode->toUtf8(mem->GetBytes()));
+				}
+			} catch (std::exception &exc) {
+				return QString(tr("{Error getting BLOB}: ")) + QString(exc.what());
 			}
 			delete mem;
 			delete data_stream;
@@ -121,7 +135,7 @@ QVariant TableDataModel::data(const QModelIndex &index, int role) const
 			return QString::fromStdString(value.as_1C());
 		}
 
-		return QString::fromStdString(record->get_string(f));
+		return value_presentation(record, f);
 	}
 	if (role == Qt::FontRole) {
 		if (record->is_removed()) {
diff --git a/src/gtool1cd/table_data_window.cpp b/src/gtool1cd/table_data_window.cpp
index 7b7de31..1138c6d 100644
--- a/src/gtool1cd/table_data_window.cpp
+++ b/src/gtool1cd/table_data_window.cpp
@@ -163,16 +163,20 @@ void TableDataWindow::dataView_selection_changed(const QItemSelection &selection
 
 		QString catalog_name("{catalog}");
 
-		if (table->find_field("FILENAME") != nullptr) {
+		try {
+			if (table->find_field("FILENAME") != nullptr) {
 
-			auto rec = model->getRecord(index);
-			catalog_name = QString::fromStdString(rec->get_string("FILENAME"));
+				auto rec = model->getRecord(index);
+				catalog_name = QString::fromStdString(rec->get_string("FILENAME"));
 
-		} else if (table->find_field("EXTNAME") != nullptr) {
+			} else if (table->find_field("EXTNAME") != nullptr) {
 
-			auto rec = model->getRecord(index);
-			catalog_name = QString::fromStdString(rec->get_string("EXTNAME"));
+				auto rec = model->getRecord(index);
+				catalog_name = QString::fromStdString(rec->get_string("EXTNAME"));
 
+			}
+		} catch (std::exception &) {
+			// имя пустое (NULL) или не читается
 		}
 
 		auto stream = model->getBlobStream(index);
-- 
2.43.0


From ff1aa5e0e7ebe1e3edd818e0ff4a2fe825185b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 104/112] fix: gtool1cd: an empty value was shown as an empty
 container

---
 src/gtool1cd/BlobViewer/blob_viewer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gtool1cd/BlobViewer/blob_viewer.cpp b/src/gtool1cd/BlobViewer/blob_viewer.cpp
index 17f0fd9..5044c00 100644
--- a/src/gtool1cd/BlobViewer/blob_viewer.cpp
+++ b/src/gtool1cd/BlobViewer/blob_viewer.cpp
@@ -123,12 +123,14 @@ void BlobViewer::setStream(TStream *stream, const QString &rootName)
 	ui->tabWidget->removeTab(0);
 	ui->tabWidget->removeTab(0);
 
-	auto cat = new V8Catalog(stream, false, true);
 	V8CatalogTreeModel *catalog_model = nullptr;
-	if (cat->isOpen() && cat->is_catalog()) {
-		catalog_model = new V8CatalogTreeModel(cat, rootName);
-	} else {
-		delete cat;
+	if (stream->GetSize() != 0) { // в пустом потоке V8Catalog создал бы пустой контейнер
+		auto cat = new V8Catalog(stream, false, true);
+		if (cat->isOpen() && cat->is_catalog()) {
+			catalog_model = new V8CatalogTreeModel(cat, rootName);
+		} else {
+			delete cat;
+		}
 	}
 
 	auto device = new StreamDevice(stream);
-- 
2.43.0


From 356dc47c4c28181b064778b646fa7dc5ecfb60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 105/112] fix: gtool1cd: an empty text was shown as an error

---
 src/gtool1cd/models/table_data_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gtool1cd/models/table_data_model.cpp b/src/gtool1cd/models/table_data_model.cpp
index bc59b38..4c76f68 100644
--- a/src/gtool1cd/models/table_data_model.cpp
+++ b/src/gtool1cd/models/table_data_model.cpp
@@ -103,7 +103,7 @@ QVariant TableDataModel::data(const QModelIndex &index, int role) const
 			try {
 				// упакованными бывают только двоичные данные, текст - это всегда текст
 				if (!record->try_store_blob_data(f, data_stream, f->get_type() == type_fields::tf_image)) {
-					return QString(tr("{Error getting BLOB}"));
+					return QString(""); // значение не NULL, но пустое
 				}
 			} catch (DetailedException &exc) {
 				return QString(tr("{Error getting BLOB}: ")) + QString(exc.what());
-- 
2.43.0


From 094c8eb167d810dab9ea30e0ad253120f4a0d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 106/112] fix: gtool1cd: wrong sizes of storages over 2 GB

---
 src/gtool1cd/models/tables_list_model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gtool1cd/models/tables_list_model.cpp b/src/gtool1cd/models/tables_list_model.cpp
index b5e2010..6f2ccc6 100644
--- a/src/gtool1cd/models/tables_list_model.cpp
+++ b/src/gtool1cd/models/tables_list_model.cpp
@@ -20,7 +20,7 @@
 */
 #include "tables_list_model.h"
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
@@ -28,16 +28,16 @@ static int object_size(/*const */V8Object *file)
 	return file->get_len();
 }
 
-QString human_size(size_t size_in_bytes)
+QString human_size(uint64_t size_in_bytes)
 {
-	size_t modified_size = size_in_bytes;
+	uint64_t modified_size = size_in_bytes;
 	QVector<QString> suffix = {QObject::tr("B"), QObject::tr("KiB"),
 	                           QObject::tr("MiB"), QObject::tr("GiB"),
 	                           QObject::tr("TiB")};
-	size_t frac_part = 0;
+	uint64_t frac_part = 0;
 	int suffix_index = 0;
 	while (suffix_index < suffix.size() && modified_size > 1000) {
-		size_t new_value = modified_size >> 10;
+		uint64_t new_value = modified_size >> 10;
 		frac_part = modified_size - (new_value << 10);
 		suffix_index++;
 		modified_size = new_value;
-- 
2.43.0


From a7ba882d8ccccb97c7476976933b5489642790c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 107/112] fix: system errors were written to the console in
 spite of -nv

---
 src/tool1cd/Class_1CD.cpp             | 5 +++--
 src/tool1cd/SystemClasses/TStream.cpp | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 6b913ed..68fe43b 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -283,9 +283,10 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 								_monopoly ? (fmOpenReadWrite | fmShareDenyWrite)
 										  : (fmOpenRead | fmShareDenyNone)));
 	}
-	catch(...)
+	catch(const std::exception &exc)
 	{
-		throw DetailedException("Ошибка открытия файла базы (файл открыт другой программой?)");
+		throw DetailedException("Ошибка открытия файла базы (файл открыт другой программой?)")
+				.add_detail("Ошибка", string(exc.what()));
 	}
 
 	std::unique_ptr<v8con> cont(new v8con());
diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index ab73e31..d8af319 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -214,7 +214,6 @@ void TWrapperStream::init_size()
 void TWrapperStream::check_stream() const
 {
 	const string err(errno ? std::strerror(errno) : "Input/output error");
-	std::cerr << err << std::endl;
 	throw IOException(err);
 }
 
-- 
2.43.0


From da4b220c358a33239b7db824efa91feace12488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 108/112] fix: the version of the free pages object of an 8.3.8
 database was shown from memory never set

---
 src/tool1cd/V8Object.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 3532525..cd776eb 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -255,6 +255,8 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		len = t->len;
 
 		version.version_1 = t->version;
+		version.version_2 = 0;
+		version.version_3 = 0;
 		version_rec.version_1 = version.version_1 + 1;
 		version_rec.version_2 = 0;
 		new_version_recorded = false;
-- 
2.43.0


From 4e2afd8a895567a9d40c50693a150edaf78793ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 109/112] fix: export of many BLOB values without a key took
 time growing with the square of their number

---
 src/ctool1cd/App.cpp                   |  2 +-
 src/tool1cd/Common.cpp                 | 15 +++++++++++----
 src/tool1cd/Common.h                   |  4 ++--
 src/tool1cd/Table.cpp                  |  2 +-
 src/tool1cd/cfapi/V8Catalog.cpp        |  4 ++--
 src/tool1cd/save_part_depot_config.cpp |  4 ++--
 6 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 4ff6906..289eaed 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -403,7 +403,7 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 		return;
 	}
 
-	std::set<std::string> file_names;
+	std::map<std::string, unsigned int> file_names;
 	for (auto& supplier_config : base1CD->supplier_configs()) {
 		string file_name = unique_file_name(supplier_config->name() + " " + supplier_config->version(), file_names) + CF_STR;
 		boost::filesystem::path cfpath = param_path / file_name;
diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 3a7c9ba..0a7ff34 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -202,7 +202,7 @@ std::string distinct_file_name(const std::string &name)
 
 //---------------------------------------------------------------------------
 // безопасное имя файла, отличающееся от всех использованных ранее
-std::string unique_file_name(const std::string &name, std::set<std::string> &used)
+std::string unique_file_name(const std::string &name, std::map<std::string, unsigned int> &used)
 {
 	auto key = [](const string &file_name) {
 #ifdef _WIN32
@@ -213,10 +213,17 @@ std::string unique_file_name(const std::string &name, std::set<std::string> &use
 	};
 
 	const string safe_name = safe_file_name(name);
-	string result = safe_name;
-	for (unsigned int number = 2; !used.insert(key(result)).second; number++) {
-		result = safe_name + "_" + to_string(number);
+	// для каждого имени известен последний использованный номер: одинаковых имён может быть много
+	auto inserted = used.insert({key(safe_name), 1});
+	if (inserted.second) {
+		return safe_name;
 	}
+	string result;
+	unsigned int &number = inserted.first->second;
+	do {
+		number++;
+		result = safe_name + "_" + to_string(number);
+	} while (!used.insert({key(result), 1}).second);
 	return result;
 }
 
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 291f973..3f1503e 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -25,7 +25,7 @@
 #include "SystemClasses/TStream.hpp"
 #include "SystemClasses/System.hpp"
 #include <boost/filesystem.hpp>
-#include <set>
+#include <map>
 #include <sstream>
 #include <iomanip>
 
@@ -41,7 +41,7 @@ std::string hexstring(TStream *str);
 std::string toXML(const std::string &in);
 std::string safe_file_name(const std::string &name);
 std::string distinct_file_name(const std::string &name);
-std::string unique_file_name(const std::string &name, std::set<std::string> &used);
+std::string unique_file_name(const std::string &name, std::map<std::string, unsigned int> &used);
 unsigned char from_hex_digit(char digit);
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 97c6008..bec6024 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -825,7 +825,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	uint32_t j, numr, nr;
 	bool canwriteblob = false;
 	Index* curindex = nullptr;
-	std::set<std::string> blob_file_names; // использованные имена файлов (ключи записей могут совпадать)
+	std::map<std::string, unsigned int> blob_file_names; // использованные имена файлов (ключи записей могут совпадать)
 
 	char UnicodeHeader[3] = {'\xef', '\xbb', '\xbf'}; // BOM UTF-8
 	string part1 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"";
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index f7fb998..ec8e4f2 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -19,7 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include <array>
-#include <set>
+#include <map>
 #include <algorithm>
 
 #include "V8Catalog.h"
@@ -910,7 +910,7 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 		boost::filesystem::create_directories(dir);
 	}
 	Lock->Acquire();
-	std::set<std::string> used_names; // имена файлов контейнера могут быть недопустимыми или совпадать
+	std::map<std::string, unsigned int> used_names; // имена файлов контейнера могут быть недопустимыми или совпадать
 	V8File* f = first;
 	while(f)
 	{
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index c335442..41a0c87 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -230,9 +230,9 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 		boost::filesystem::create_directories(cath);
 	}
 
-	std::set<std::string> file_names; // созданные файлы
+	std::map<std::string, unsigned int> file_names; // созданные файлы
 	if (cath == filepath) {
-		file_names.insert("deleted");
+		file_names["deleted"] = 1;
 	}
 
 	lastver = -1;
-- 
2.43.0


From 4934acf370a67caf8ff2a17ffe3a3bbecc4a3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 110/112] fix: replacing in a text took time growing with the
 square of its length

---
 src/tool1cd/SystemClasses/System.SysUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.SysUtils.cpp b/src/tool1cd/SystemClasses/System.SysUtils.cpp
index 7476e6e..ba4d1f6 100644
--- a/src/tool1cd/SystemClasses/System.SysUtils.cpp
+++ b/src/tool1cd/SystemClasses/System.SysUtils.cpp
@@ -163,17 +163,17 @@ string ExtractFileExt(const string &filename)
 
 string StringReplace(const string &S, const string &OldPattern, const string &NewPattern, int Flags)
 {
-	string result(S);
+	string result;
 	string::size_type spos = 0;
 	do {
-		auto pos = result.find(OldPattern, spos);
+		auto pos = S.find(OldPattern, spos);
 		if (pos == string::npos) {
 			break;
 		}
-		result = result.replace(pos, OldPattern.size(), NewPattern);
-		spos = pos + NewPattern.size();
+		result.append(S, spos, pos - spos).append(NewPattern);
+		spos = pos + OldPattern.size();
 	} while (Flags & rfReplaceAll);
-	return result;
+	return result.append(S, spos, string::npos);
 }
 
 
-- 
2.43.0


From b641448510d24e795c1e84657f7b563a809ce83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 111/112] fix: search in the packs of a repository looked
 through all their hashes

---
 src/tool1cd/Packdata.cpp | 43 ++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/tool1cd/Packdata.cpp b/src/tool1cd/Packdata.cpp
index 0ac257c..abb6c9d 100755
--- a/src/tool1cd/Packdata.cpp
+++ b/src/tool1cd/Packdata.cpp
@@ -20,6 +20,8 @@
 */
 
 #include <regex>
+#include <algorithm>
+#include <cstring>
 
 #include "Packdata.h"
 #include "MessageRegistration.h"
@@ -27,6 +29,11 @@
 
 extern Registrator msreg_g;
 
+static bool hash_less(const record_data_hash &a, const record_data_hash &b)
+{
+	return memcmp(a.datahash, b.datahash, DATAHASH_FIELD_LENGTH) < 0;
+}
+
 Packdata::Packdata(boost::filesystem::path& file_path) {
 
 	try {
@@ -39,6 +46,8 @@ Packdata::Packdata(boost::filesystem::path& file_path) {
 		}
 		datahashes.resize(count);
 		in->Read(datahashes.data(), count * sizeof(record_data_hash));
+		// из записей с одинаковым хэшем первой остаётся первая в файле
+		std::stable_sort(datahashes.begin(), datahashes.end(), hash_less);
 	}
 	catch (...) {
 		throw DetailedException("Ошибка открытия файла")
@@ -61,24 +70,24 @@ TStream* Packdata::get_data(const char* datahash, bool &found) {
 	TStream *buffer = nullptr;
 	found = false;
 
-	for(const auto &record: datahashes) {
-		if(memcmp(datahash, record.datahash, DATAHASH_FIELD_LENGTH) == 0) {
-			pack->Seek(record.offset, soBeginning);
-			int64_t packlen = 0;
-			pack->Read(&packlen, sizeof(packlen));
-			if (packlen < 0 || packlen > pack->GetSize() - pack->GetPosition()) {
-				throw DetailedException("Длина данных выходит за пределы файла упакованных данных")
-						.add_detail("Смещение", record.offset)
-						.add_detail("Длина", packlen);
-			}
-			buffer = new TTempStream;
-			if (packlen) {
-				buffer->CopyFrom(pack.get(), packlen);
-			}
-			buffer->Close();
-			found = true;
-			break;
+	record_data_hash key;
+	memcpy(key.datahash, datahash, DATAHASH_FIELD_LENGTH);
+	auto record = std::lower_bound(datahashes.begin(), datahashes.end(), key, hash_less);
+	if (record != datahashes.end() && !hash_less(key, *record)) {
+		pack->Seek(record->offset, soBeginning);
+		int64_t packlen = 0;
+		pack->Read(&packlen, sizeof(packlen));
+		if (packlen < 0 || packlen > pack->GetSize() - pack->GetPosition()) {
+			throw DetailedException("Длина данных выходит за пределы файла упакованных данных")
+					.add_detail("Смещение", record->offset)
+					.add_detail("Длина", packlen);
+		}
+		buffer = new TTempStream;
+		if (packlen) {
+			buffer->CopyFrom(pack.get(), packlen);
 		}
+		buffer->Close();
+		found = true;
 	}
 	return buffer;
 }
-- 
2.43.0


From 92ca8aab4b3868e150b9a0e8b3aed016bf4cb49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 112/112] fix: every read from a file refilled the buffer

---
 src/tool1cd/SystemClasses/TStream.cpp | 10 +++++++++-
 src/tool1cd/SystemClasses/TStream.hpp |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index d8af319..1ebcd2c 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -201,6 +201,7 @@ void TWrapperStream::reopen(const std::shared_ptr<std::iostream> &stream)
 void TWrapperStream::init_size()
 {
 	errno = 0;
+	m_read_position = -1;
 	_stream->seekg(0, std::ios_base::end);
 	m_size = _stream->tellg();
 	_stream->seekg(0, std::ios_base::beg);
@@ -221,7 +222,10 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 {
 	_stream->clear();
 	errno = 0;
-	_stream->seekg(GetPosition(), std::ios_base::beg);
+	if (m_read_position != GetPosition()) { // при переходе поток забывает прочитанное впрок
+		_stream->seekg(GetPosition(), std::ios_base::beg);
+	}
+	m_read_position = -1;
 	if (_stream->fail()) {
 		check_stream();
 	}
@@ -231,6 +235,9 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 	}
 	auto data_read = _stream->gcount();
 	m_position += data_read;
+	if (_stream->good()) {
+		m_read_position = m_position;
+	}
 	return data_read;
 }
 
@@ -238,6 +245,7 @@ int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
 	_stream->clear();
 	errno = 0;
+	m_read_position = -1;
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
diff --git a/src/tool1cd/SystemClasses/TStream.hpp b/src/tool1cd/SystemClasses/TStream.hpp
index c714a57..3a1c2c9 100644
--- a/src/tool1cd/SystemClasses/TStream.hpp
+++ b/src/tool1cd/SystemClasses/TStream.hpp
@@ -119,6 +119,7 @@ public:
 
 private:
 	std::shared_ptr<std::iostream> _stream;
+	int64_t m_read_position = -1; // место в потоке, на котором закончилось последнее чтение, или -1
 };
 
 } // Classes
-- 
2.43.0

