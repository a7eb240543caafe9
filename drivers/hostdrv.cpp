// Reads hostile input through the library.  Blocks "command length\nbytes\n" on stdin, one answer line each.
//   walk0 walk1    the bytes are a container in memory, plain or with deflated files: everything is read
//   save0 save1    the same, and the container is saved into ./sv
//   edit0 edit1    the same, and files are created, rewritten, renamed and deleted afterwards
//   file.EXT       the bytes are written to ./c.EXT and opened by name
//   conf           the bytes are written to ./c.cf and read as a storage of configuration files
//   trees          every file of the container is parsed as a text
//   inflate        the bytes are a raw deflate stream
//   text stream    the bytes are a text in bracket notation
#include <boost/filesystem.hpp>
#include <zlib.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include "Common.h"
#include "ConfigStorage.h"
#include "DetailedException.h"
#include "MessageRegistration.h"
#include "Parse_tree.h"
#include "SystemClasses/System.Classes.hpp"
#include "UZLib.h"
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "cfapi/TV8FileStream.h"

using namespace std;

extern Registrator msreg_g;

class Counter : public MessageRegistrator {
public:
	int errors = 0;
	void AddDetailedMessage(const string &, const MessageState s, const TStringList *) override { if (s == MessageState::Error) errors++; }
	void Status(const string &) override {}
} counter;

static string tohex(const string &s) {
	static const char *d = "0123456789abcdef";
	string r;
	for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}

static void spit(const string &path, const string &b) {
	ofstream f(path, ios::binary | ios::trunc);
	f.write(b.data(), (streamsize)b.size());
}

static string content(TStream &m) {
	string b((size_t)m.GetSize(), '\0');
	m.Seek(0, soFromBeginning);
	if (!b.empty()) m.Read(&b[0], (int64_t)b.size());
	return b;
}

static string sum(const string &b) {
	return to_string(b.size()) + ":" + to_string(crc32(0, (const Bytef *)b.data(), (uInt)b.size()));
}

static const size_t MAX_ENTRIES = 3000;

static void walk(V8Catalog *c, const string &prefix, string &out, size_t &n, vector<string> &paths, bool &safe) {
	for (V8File *f = c->get_first(); f; f = f->get_next()) {
		if (++n > MAX_ENTRIES) return;
		string name = f->get_file_name();
		if (name.find('/') != string::npos || name.find('\\') != string::npos || name == ".." || name.find('\0') != string::npos) safe = false;
		string p = prefix + tohex(name);
		try {
			auto len = f->get_file_length();
			TMemoryStream m;
			f->save_to_stream(&m);
			string b = content(m);
			unique_ptr<TV8FileStream> s(f->get_stream());
			string b2((size_t)len, '\0');
			if (len) b2.resize((size_t)s->Read(&b2[0], len));
			out += p + "," + sum(b) + "," + (b == b2 && (int64_t)b.size() == len ? "f" : "x") + ";";
			paths.push_back(name);
		} catch (const DetailedException &e) {
			out += p + ",error;";
			continue;
		} catch (const System::Exception &e) {
			out += p + ",error;";
			continue;
		}
		try {
			if (f->is_catalog()) {
				V8Catalog *sub = f->get_catalog();
				if (sub && sub->is_catalog()) walk(sub, p + "/", out, n, paths, safe);
			}
		} catch (const DetailedException &e) {
			out += p + "/," + e.what() + ";";
		} catch (const System::Exception &e) {
			out += p + "/," + e.what() + ";";
		}
	}
}

static void trees(V8Catalog *c, string &out, size_t &n) {
	for (V8File *f = c->get_first(); f; f = f->get_next()) {
		if (++n > MAX_ENTRIES) return;
		try {
			auto t = f->get_tree();
			out += "t";
		} catch (const DetailedException &e) {
			out += "e";
		} catch (const std::exception &e) {
			out += "e";
		}
		f->close();
	}
}

static void edit(V8Catalog *c, string &out) {
	string big(3000, 'x');
	auto step = [&](char what, function<void()> fn) {
		try { fn(); out += what; }
		catch (const DetailedException &) { out += "e"; }
		catch (const System::Exception &) { out += "e"; }
	};
	step('a', [&]() { c->createFile("новый")->write(big.data(), (int)big.size()); });
	step('b', [&]() { c->Flush(); });
	if (V8File *f = c->get_first()) {
		step('c', [&]() { f->write(big.data(), (int)big.size()); });
		step('d', [&]() { f->flush(); });
	}
	step('e', [&]() { c->createFile("второй")->write(big.data(), 700); });
	step('f', [&]() { V8Catalog *k = c->CreateCatalog("каталог"); if (k) k->createFile("внутри")->write(big.data(), 10); });
	if (V8File *f = c->get_first()) step('g', [&]() { c->delete_file(f->get_file_name()); });
	step('h', [&]() { c->Flush(); });
	if (V8File *f = c->get_first()) {
		step('i', [&]() {
			TMemoryStream m;
			m.Write(big.data(), 1500);
			m.Seek(0, soFromBeginning);
			f->write_and_close(&m);
		});
		step('j', [&]() { f->set_file_name("переименован"); });
	}
	step('k', [&]() { c->Flush(); });
}

static string answer(const string &cmd, const string &s) {
	if (cmd == "inflate") {
		TMemoryStream in, out;
		if (!s.empty()) in.Write(s.data(), (int64_t)s.size());
		in.Seek(0, soFromBeginning);
		ZInflateStream(&in, &out);
		return "ok " + sum(content(out));
	}
	if (cmd == "inflatefile") {
		spit("z", s);
		{
			TFileStream in(boost::filesystem::path("z"), fmOpenRead), out(boost::filesystem::path("u"), fmCreate);
			ZInflateStream(&in, &out);
		}
		ifstream f("u", ios::binary);
		string b((istreambuf_iterator<char>(f)), istreambuf_iterator<char>());
		return "ok " + sum(b);
	}
	if (cmd == "text" || cmd == "stream") {
		unique_ptr<Tree> t;
		if (cmd == "text") t = parse_1Ctext(s, "test");
		else {
			TMemoryStream m;
			if (!s.empty()) m.Write(s.data(), (int64_t)s.size());
			m.Seek(0, soFromBeginning);
			t = parse_1Cstream(&m, "test");
		}
		if (!t) return "null";
		string o = outtext(t.get());
		return "ok " + to_string(o.size());
	}
	string out, tail;
	size_t n = 0;
	bool safe = true;
	vector<string> paths;
	if (cmd == "conf") {
		spit("c.cf", s);
		{
			V8Catalog c("c.cf");
			if (!c.isOpen()) return "no";
			walk(&c, "", out, n, paths, safe);
		}
		ConfigStorageCFFile cf("c.cf");
		out = "";
		for (auto &p : paths) {
			try {
				unique_ptr<ConfigFile> f(cf.readfile(p));
				if (!f) { out += "n"; continue; }
				string b = content(*f->str);
				out += "f";
				cf.close(f.release());
			} catch (const DetailedException &) {
				out += "e";
			} catch (const System::Exception &) {
				out += "e";
			}
		}
		return "ok " + out;
	}
	unique_ptr<TMemoryStream> m;
	unique_ptr<V8Catalog> c;
	bool save = cmd.substr(0, 4) == "save", ed = cmd.substr(0, 4) == "edit", tr = cmd == "trees";
	if (cmd.substr(0, 5) == "file.") {
		string name = "c." + cmd.substr(5);
		spit(name, s);
		c.reset(new V8Catalog(name));
		save = s.size() % 3 == 0;
		ed = s.size() % 3 == 1;
	} else {
		m.reset(new TMemoryStream);
		if (!s.empty()) m->Write(s.data(), (int64_t)s.size());
		c.reset(new V8Catalog(m.get(), cmd.back() == '1', true));
	}
	if (!c->isOpen()) return "no";
	if (tr) {
		trees(c.get(), out, n);
		return "ok " + out;
	}
	walk(c.get(), "", out, n, paths, safe);
	if (save && safe) {
		tail = " saved";
		try { c->SaveToDir("sv"); }
		catch (const DetailedException &) { tail = " save error"; }
		catch (const System::Exception &) { tail = " save error"; }
		catch (const boost::filesystem::filesystem_error &) { tail = " save error"; }
		boost::filesystem::remove_all("sv");
	}
	if (ed) {
		tail = " edited ";
		edit(c.get(), tail);
	}
	c.reset();
	return "ok " + out + tail;
}

int main() {
	ios::sync_with_stdio(false);
	msreg_g.AddMessageRegistrator(&counter);
	string cmd;
	size_t n;
	while (cin >> cmd >> n) {
		cin.get();
		string s(n, '\0');
		if (n) cin.read(&s[0], (streamsize)n);
		counter.errors = 0;
		string a;
		try {
			a = answer(cmd, s);
		} catch (const bad_alloc &e) {
			a = "memory";
		} catch (const DetailedException &e) {
			a = string("error ") + e.what();
		} catch (const System::Exception &e) {
			a = string("error ") + e.what();
		} catch (const exception &e) {
			a = string("exception ") + e.what();
		}
		for (char &c : a) if (c == '\n' || c == '\r') c = ' ';
		cout << a << "\t" << counter.errors << endl;
	}
	return 0;
}
