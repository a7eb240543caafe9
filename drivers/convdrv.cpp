// Value conversions through the library.  Input: blocks "<command> <argument> <length>\n<bytes>"; output: one line per block:
// "ok <hex> <hex> ..." or "error" / "exception <text>".  Every input and output buffer has exactly the size it needs.
#include <cstring>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include "Base64.h"
#include "BinaryDecimalNumber.h"
#include "BinaryGuid.h"
#include "CRC32.h"
#include "Common.h"
#include "DetailedException.h"
#include "Field.h"
#include "MessageRegistration.h"
#include "Parse_tree.h"
#include "SystemClasses/String.hpp"
#include "SystemClasses/System.Classes.hpp"
#include "SystemClasses/System.SysUtils.hpp"
#include "UZLib.h"
#include "cfapi/V8Time.h"

using namespace std;

static string hex(const string &s) {
	static const char *d = "0123456789abcdef";
	string o;
	o.reserve(s.size() * 2 + 1);
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o.empty() ? "-" : o;
}

struct Answer {
	string line = "ok";
	Answer &operator<<(const string &s) { line += " " + hex(s); return *this; }
	Answer &operator<<(const char *s) { return *this << string(s); }
	Answer &operator<<(bool b) { return *this << string(b ? "1" : "0"); }
	Answer &operator<<(long long n) { return *this << to_string(n); }
};

// a copy on the heap with exactly the bytes of s
struct Exact {
	unique_ptr<char[]> p;
	size_t n;
	explicit Exact(const string &s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
	explicit Exact(size_t size) : p(new char[size]), n(size) { if (n) memset(p.get(), 0x5a, n); }
	string str() const { return string(p.get(), n); }
	char *get() const { return p.get(); }
};

static void load(TMemoryStream &m, const string &s, size_t at = 0) {
	if (!s.empty()) m.Write(s.data(), (int64_t)s.size());
	m.Seek((int64_t)at, soFromBeginning);
}

static string bytes(const TMemoryStream &m) {
	auto &b = const_cast<TMemoryStream &>(m).GetBytes();
	return string(b.begin(), b.begin() + (long)m.GetSize());
}

static vector<string> split(const string &s) {
	vector<string> r;
	size_t i = 0;
	for (;;) {
		size_t j = s.find(':', i);
		r.push_back(s.substr(i, j == string::npos ? string::npos : j - i));
		if (j == string::npos) return r;
		i = j + 1;
	}
}

static string digits(const vector<int> &v) {
	string s;
	for (int d : v) s += to_string(d);
	return s;
}

static unique_ptr<Field> make_field(const vector<string> &a) {
	// name:type:null:length:precision
	auto tree = parse_1Ctext("{\"" + a[0] + "\",\"" + a[1] + "\"," + a[2] + "," + a[3] + "," + a[4] + ",\"CS\"}", "");
	bool v = false;
	return unique_ptr<Field>(Field::field_from_tree(tree->get_first()->get_first(), v, nullptr));
}

static void run(const string &cmd, const vector<string> &a, const string &s, Answer &o) {
	if (cmd == "guid.raw") {
		Exact e(s);
		auto u = (const unsigned char *)e.get();
		BinaryGuid g(e.get());
		o << GUIDas1C(u) << GUIDasMS(u) << g.as_1C() << g.as_MS() << GUID_to_string(g) << g.is_empty();
		BinaryGuid back(g.as_1C());
		o << (back == g);
	} else if (cmd == "guid.text") {
		BinaryGuid g;
		bool r = string_to_GUID(s, &g);
		o << r << g.as_1C();
	} else if (cmd == "guid.cmp") {
		Exact x(s.substr(0, 16)), y(s.substr(16));
		BinaryGuid g(x.get()), h(y.get());
		o << (g == h) << (g != h) << (g > h);
	} else if (cmd == "dec.raw") {
		Exact e(s);
		BinaryDecimalNumber n(e.get(), stoi(a[0]), stoi(a[1]), a[2] == "1");
		Exact back(s.size());
		n.write_to(back.get());
		o << n.get_presentation() << digits(n.get_int()) << digits(n.get_frac()) << back.str();
	} else if (cmd == "dec.text") {
		int len = stoi(a[0]), prec = stoi(a[1]);
		bool sign = a[2] == "1";
		BinaryDecimalNumber n(s, sign, len, prec);
		o << n.get_presentation();
		if (len) {
			Exact raw((size_t)(len + (sign ? 2 : 1)) / 2);
			n.write_to(raw.get());
			BinaryDecimalNumber m(raw.get(), len, prec, sign);
			o << raw.str() << m.get_presentation();
		}
	} else if (cmd == "date.raw") {
		Exact e(s);
		BinaryDecimalDate d(e.get());
		Exact back((size_t)7);
		d.write_to(back.get());
		o << date_to_string(e.get()) << date_to_string1C(e.get())
		  << to_string(d.get_year()) + "," + to_string(d.get_month()) + "," + to_string(d.get_day()) + "," + to_string(d.get_hour()) + ","
		     + to_string(d.get_minute()) + "," + to_string(d.get_second())
		  << back.str();
	} else if (cmd == "date.text") {
		Exact raw((size_t)7);
		if (a[0] == "1c") string1C_to_date(s, raw.get());
		else string_to_date(s, raw.get());
		o << raw.str() << date_to_string(raw.get());
	} else if (cmd == "date.time") {
		Exact e(s);
		System::FILETIME ft;
		time1CD_to_FileTime(&ft, e.get());
		V8Time t(ft);
		System::FILETIME again = t.to_file_time();
		o << (long long)(((uint64_t)ft.dwHighDateTime << 32) | ft.dwLowDateTime)
		  << (long long)(((uint64_t)again.dwHighDateTime << 32) | again.dwLowDateTime);
	} else if (cmd == "hex") {
		Exact e(s);
		TMemoryStream m;
		load(m, s, a[0] == "-" ? 0 : stoul(a[0]));
		string h = hexstring(e.get(), (int)e.n);
		string back, back2;
		for (size_t i = 0; i + 1 < h.size(); i += 2) {
			unsigned char c = 0;
			char hi = h[i], lo = h[i + 1];
			if (i % 4) { hi = (char)toupper(hi); lo = (char)toupper(lo); }
			if (!two_hex_digits_to_byte(hi, lo, c)) back += "?";
			back += (char)c;
			back2 += (char)((from_hex_digit(hi) << 4) | from_hex_digit(lo));
		}
		o << h << hexstring(&m) << back << back2;
	} else if (cmd == "hexbad") {
		unsigned char c = 0x77;
		bool r = two_hex_digits_to_byte(s[0], s[1], c);
		o << r << string(1, (char)c);
	} else if (cmd == "reverse") {
		unsigned v;
		memcpy(&v, s.data(), 4);
		v = reverse_byte_order(v);
		o << string((char *)&v, 4) << to_hex_string(v) << to_hex_string(v, false);
	} else if (cmd == "b64enc") {
		TMemoryStream in, out;
		load(in, s);
		base64_encode(&in, &out, stoi(a[0]));
		o << bytes(out);
	} else if (cmd == "b64dec") {
		TMemoryStream out;
		if (a[0] == "stream") {
			TMemoryStream in;
			load(in, s, stoul(a[1]));
			base64_decode(&in, &out);
		} else base64_decode(s, &out, stoi(a[1]));
		o << bytes(out);
	} else if (cmd == "deflate") {
		TMemoryStream in, out, out2;
		load(in, s, stoul(a[0]));
		bool r = ZDeflateStream(&in, &out);
		out.Seek(0, soFromBeginning);
		ZInflateStream(&out, &out2);
		o << r << bytes(out) << bytes(out2);
	} else if (cmd == "inflate" || cmd == "inflateorcopy") {
		TMemoryStream in, out;
		load(in, s, stoul(a[0]));
		out.WriteString("begin");
		if (cmd == "inflate") ZInflateStream(&in, &out);
		else ZInflateOrCopy(&in, &out);
		o << bytes(out);
	} else if (cmd == "crc") {
		TMemoryStream in;
		load(in, s, s.size() / 2);
		o << to_string(_crc32(&in));
	} else if (cmd == "utf16") {
		size_t off = stoul(a[0]);
		o << TEncoding::Unicode->toUtf8(vector<uint8_t>(s.begin(), s.end()), (int)off);
		auto c = TEncoding::Convert(TEncoding::Unicode, TEncoding::UTF8, vector<uint8_t>(s.begin(), s.end()), (int)off, (int)(s.size() - off));
		o << string(c.begin(), c.end());
	} else if (cmd == "utf8") {
		size_t off = stoul(a[0]);
		auto u = TEncoding::Unicode->fromUtf8(s);
		auto c = TEncoding::Convert(TEncoding::UTF8, TEncoding::Unicode, vector<uint8_t>(s.begin(), s.end()), (int)off, (int)(s.size() - off));
		auto e = TEncoding::UTF8->fromUtf8(s);
		o << string(u.begin(), u.end()) << string(c.begin(), c.end()) << string(e.begin(), e.end())
		  << TEncoding::UTF8->toUtf8(vector<uint8_t>(s.begin(), s.end()), (int)off);
	} else if (cmd == "bom") {
		TEncoding *e = nullptr;
		int n = TEncoding::GetBufferEncoding(vector<uint8_t>(s.begin(), s.end()), e);
		o << (long long)n << (e == TEncoding::UTF8 ? "utf8" : e == TEncoding::Unicode ? "utf16" : "none");
	} else if (cmd == "case") {
		o << System::LowerCase(s) << System::UpperCase(s) << System::EqualIC(s, System::UpperCase(s)) << System::EndsWithIC("Ёж" + System::UpperCase(s), s);
	} else if (cmd == "xml") {
		o << toXML(s);
	} else if (cmd == "int") {
		o << (long long)System::ToIntDef(s, stoi(a[0]));
	} else if (cmd == "field.text") {
		auto f = make_field(a);
		FieldType::showGUID = a[5] == "1";
		Exact raw((size_t)f->get_size());
		bool r = f->get_binary_value(raw.get(), a[6] == "1", s);
		o << r << raw.str() << f->get_presentation(raw.get()) << f->get_XML_presentation(raw.get());
		FieldType::showGUID = false;
	} else if (cmd == "field.raw") {
		auto f = make_field(a);
		Exact raw(s);
		o << (long long)f->get_size() << f->get_presentation(raw.get()) << f->get_XML_presentation(raw.get());
		if (a[5] == "1") {
			Exact key(s.size());
			uint32_t n = f->get_sort_key(raw.get(), (unsigned char *)key.get(), (int32_t)s.size());
			o << (long long)n << key.str();
		}
	} else throw logic_error("unknown command " + cmd);
}

int main() {
	ios::sync_with_stdio(false);
	string cmd, arg;
	size_t n;
	while (cin >> cmd >> arg >> n) {
		cin.get();
		string s(n, '\0');
		if (n) cin.read(&s[0], (streamsize)n);
		Answer a;
		try {
			run(cmd, split(arg), s, a);
		} catch (DetailedException &e) {
			a.line = "error";
		} catch (exception &e) {
			a.line = string("exception ") + e.what();
		} catch (...) {
			a.line = "foreign";
		}
		for (auto &c : a.line) if (c == '\n') c = ' ';
		cout << a.line << endl;
	}
	return 0;
}
