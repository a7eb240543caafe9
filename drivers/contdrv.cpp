// Edits a configuration container through the library.  Commands come line by line on stdin, fields separated by tabs;
// a path is a list of hex coded names separated by '/', "-" is the container itself.
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "Common.h"
#include "ConfigStorage.h"
#include "DetailedException.h"
#include "MessageRegistration.h"
#include "Messenger.h"
#include "SystemClasses/System.Classes.hpp"
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "cfapi/TV8FileStream.h"

using namespace std;

extern Registrator msreg_g;

static void report(const string &what, const string &detail = "") {
	string d = detail;
	for (char &c : d) if (c == '\n' || c == '\r') c = ' ';
	cout << what << "\t" << d << endl;
}

static vector<char> slurp(const string &path) {
	ifstream f(path, ios::binary);
	return vector<char>((istreambuf_iterator<char>(f)), istreambuf_iterator<char>());
}

static void spit(const string &path, const vector<char> &b) {
	ofstream f(path, ios::binary | ios::trunc);
	f.write(b.data(), b.size());
}

static string unhex(const string &h) {
	string r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)stoi(h.substr(i, 2), nullptr, 16));
	return r;
}

static string tohex(const string &s) {
	static const char *d = "0123456789abcdef";
	string r;
	for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}

static vector<string> parts(const string &p) {
	vector<string> r;
	if (p == "-") return r;
	string x;
	istringstream is(p);
	while (getline(is, x, '/')) r.push_back(unhex(x));
	return r;
}

static V8Catalog *root;
static unique_ptr<TMemoryStream> memory;      // the container lives in this stream
static string memory_file;
static unique_ptr<ConfigStorageCFFile> cfs;

struct Missing {};

static V8Catalog *catalog(const vector<string> &p, size_t n) {
	V8Catalog *c = root;
	for (size_t i = 0; i < n; i++) {
		V8File *f = c->get_file(p[i]);
		if (!f) throw Missing();
		c = f->get_catalog();
		if (!c) throw Missing();
	}
	return c;
}

static V8File *file(const string &path) {
	auto p = parts(path);
	V8File *f = catalog(p, p.size() - 1)->get_file(p.back());
	if (!f) throw Missing();
	return f;
}

static string filetime(const System::FILETIME &t) {
	return to_string(((uint64_t)t.dwHighDateTime << 32) | t.dwLowDateTime);
}

static System::FILETIME maketime(const string &s) {
	uint64_t v = stoull(s);
	System::FILETIME t;
	t.dwHighDateTime = (uint32_t)(v >> 32);
	t.dwLowDateTime = (uint32_t)v;
	return t;
}

int main() {
	Messenger mess;
	msreg_g.AddMessageRegistrator(&mess);
	map<string, TV8FileStream *> streams;
	string line;
	while (getline(cin, line)) {
		vector<string> a;
		string x;
		istringstream is(line);
		while (getline(is, x, '\t')) a.push_back(x);
		if (a.empty()) continue;
		const string &c = a[0];
		try {
			if (c == "open") {                  // open file mode
				if (a[2] == "auto") root = new V8Catalog(a[1]);
				else if (a[2] == "zip") root = new V8Catalog(a[1], true);
				else if (a[2] == "plain") root = new V8Catalog(a[1], false);
				else {                          // memory, memzip
					memory.reset(new TMemoryStream);
					auto b = slurp(a[1]);
					if (!b.empty()) memory->Write(b.data(), (int64_t)b.size());
					memory_file = a[1];
					root = new V8Catalog(memory.get(), a[2] == "memzip", true);
				}
				report(root->isOpen() ? "ok" : "no");
			} else if (c == "close") {
				streams.clear();                // the files delete their streams
				delete root;
				root = nullptr;
				if (memory) {
					vector<char> b((size_t)memory->GetSize());
					memory->Seek(0, soFromBeginning);
					if (!b.empty()) memory->Read(b.data(), (int64_t)b.size());
					spit(memory_file, b);
					memory.reset();
				}
				report("ok");
			} else if (c == "flush") {
				root->Flush();
				report("ok");
			} else if (c == "halfclose") {
				root->HalfClose();
				report("ok");
			} else if (c == "halfopen") {
				root->HalfOpen(a[1]);
				report("ok");
			} else if (c == "list") {
				auto p = parts(a[1]);
				string s;
				for (V8File *f = catalog(p, p.size())->get_first(); f; f = f->get_next()) s += tohex(f->get_file_name()) + " ";
				report("ok", s);
			} else if (c == "create" || c == "mkcat") {
				auto p = parts(a[1]);
				V8Catalog *d = catalog(p, p.size() - 1);
				if (c == "create") report(d->createFile(p.back()) ? "ok" : "no");
				else report(d->CreateCatalog(p.back()) ? "ok" : "no");
			} else if (c == "write") {          // path content
				V8File *f = file(a[1]);
				auto b = slurp(a[2]);
				report("ok", to_string(f->write(b.data(), (int)b.size())));
			} else if (c == "writes" || c == "writeclose") {
				V8File *f = file(a[1]);
				TMemoryStream m;
				auto b = slurp(a[2]);
				if (!b.empty()) m.Write(b.data(), (int64_t)b.size());
				m.Seek(0, soFromBeginning);
				if (c == "writes") f->write(&m);
				else f->write_and_close(&m);
				report("ok");
			} else if (c == "writeat") {        // path start content
				V8File *f = file(a[1]);
				auto b = slurp(a[3]);
				f->write((const void *)b.data(), stoi(a[2]), (int)b.size());
				report("ok");
			} else if (c == "writevec") {
				V8File *f = file(a[1]);
				auto b = slurp(a[3]);
				f->write(vector<uint8_t>(b.begin(), b.end()), stoi(a[2]), (int)b.size());
				report("ok");
			} else if (c == "writesat") {
				V8File *f = file(a[1]);
				TMemoryStream m;
				auto b = slurp(a[3]);
				m.Write(b.data(), (int64_t)b.size());
				m.Seek(0, soFromBeginning);
				f->write(&m, stoi(a[2]), (int)b.size());
				report("ok");
			} else if (c == "read") {           // path output
				V8File *f = file(a[1]);
				vector<char> b((size_t)f->get_file_length());
				if (!b.empty()) b.resize((size_t)f->read(b.data(), 0, (int)b.size()));
				spit(a[2], b);
				report("ok");
			} else if (c == "readat") {         // path start len output
				V8File *f = file(a[1]);
				vector<char> b((size_t)stoi(a[3]));
				b.resize((size_t)f->read((void *)b.data(), stoi(a[2]), (int)b.size()));
				spit(a[4], b);
				report("ok");
			} else if (c == "readvec") {
				V8File *f = file(a[1]);
				vector<uint8_t> v((size_t)stoi(a[3]));
				v.resize((size_t)f->read(v, stoi(a[2]), (int)v.size()));
				spit(a[4], vector<char>(v.begin(), v.end()));
				report("ok");
			} else if (c == "tofile") {
				file(a[1])->save_to_file(a[2]);
				report("ok");
			} else if (c == "tostream") {
				TMemoryStream m;
				file(a[1])->save_to_stream(&m);
				vector<char> b((size_t)m.GetSize());
				m.Seek(0, soFromBeginning);
				if (!b.empty()) m.Read(b.data(), (int64_t)b.size());
				spit(a[2], b);
				report("ok");
			} else if (c == "len") {
				report("ok", to_string(file(a[1])->get_file_length()));
			} else if (c == "exists") {
				auto p = parts(a[1]);
				report(catalog(p, p.size() - 1)->get_file(p.back()) ? "yes" : "no");
			} else if (c == "iscat") {
				report(file(a[1])->is_catalog() ? "yes" : "no");
			} else if (c == "delete") {
				auto p = parts(a[1]);
				catalog(p, p.size() - 1)->delete_file(p.back());
				report("ok");
			} else if (c == "rename") {
				file(a[1])->set_file_name(unhex(a[2]));
				report("ok");
			} else if (c == "fclose") {
				file(a[1])->close();
				report("ok");
			} else if (c == "fflush") {
				file(a[1])->flush();
				report("ok");
			} else if (c == "settimes") {
				V8File *f = file(a[1]);
				for (int i = 2; i < 4; i++) {       // "-": leave it; "v...": through V8Time
					if (a[i] == "-") continue;
					if (a[i][0] == 'v') {
						V8Time t(maketime(a[i].substr(1)));
						if (i == 2) f->set_time_create(t);
						else f->set_time_modify(t);
					} else if (i == 2) f->set_time_create(maketime(a[i]));
					else f->set_time_modify(maketime(a[i]));
				}
				report("ok");
			} else if (c == "times") {
				V8File *f = file(a[1]);
				report("ok", filetime(f->get_time_create()) + " " + filetime(f->get_time_modify()));
			} else if (c == "fullname") {
				report("ok", tohex(file(a[1])->get_full_name()));
			} else if (c == "todir") {
				auto p = parts(a[1]);
				catalog(p, p.size())->SaveToDir(a[2]);
				report("ok");
			} else if (c == "sopen") {          // id path
				streams[a[1]] = file(a[2])->get_stream();
				report("ok");
			} else if (c == "sread") {          // id len output
				vector<char> b((size_t)stoi(a[2]));
				b.resize((size_t)streams.at(a[1])->Read(b.data(), (int64_t)b.size()));
				spit(a[3], b);
				report("ok");
			} else if (c == "swrite") {         // id content
				auto b = slurp(a[2]);
				streams.at(a[1])->Write(b.data(), (int64_t)b.size());
				report("ok");
			} else if (c == "sreadv") {         // id len offset output: into a vector, behind what is in it
				size_t n = (size_t)stoi(a[2]), at = (size_t)stoi(a[3]);
				vector<uint8_t> v(at, 0xa5);
				size_t r = (size_t)streams.at(a[1])->Read(v, (int)at, (int)n);
				bool head = v.size() >= at + r;
				for (size_t i = 0; head && i < at; i++) head = v[i] == 0xa5;
				spit(a[4], vector<char>(v.begin() + (long)min(at, v.size()), v.begin() + (long)min(at + r, v.size())));
				report(head ? "ok" : "head");
			} else if (c == "swritev") {        // id offset content: out of the middle of a vector
				auto b = slurp(a[3]);
				size_t at = (size_t)stoi(a[2]);
				vector<uint8_t> v(at, 0x5a);
				v.insert(v.end(), b.begin(), b.end());
				streams.at(a[1])->Write(v, (int)at, (int)b.size());
				report("ok");
			} else if (c == "sseek") {          // id origin(b,c,e) offset
				TSeekOrigin o = a[2] == "b" ? soFromBeginning : a[2] == "c" ? soFromCurrent : soFromEnd;
				report("ok", to_string(streams.at(a[1])->Seek((int64_t)stoi(a[3]), o)));
			} else if (c == "ssize") {
				report("ok", to_string(streams.at(a[1])->GetSize()));
			} else if (c == "sclose") {
				delete streams.at(a[1]);
				streams.erase(a[1]);
				report("ok");
			} else if (c == "cfopen") {
				cfs.reset(new ConfigStorageCFFile(a[1]));
				report("ok");
			} else if (c == "cfclose") {
				cfs.reset();
				report("ok");
			} else if (c == "cfwrite") {        // path (plain, with / or \) content
				TMemoryStream m;
				auto b = slurp(a[2]);
				if (!b.empty()) m.Write(b.data(), (int64_t)b.size());
				m.Seek(0, soFromBeginning);
				report(cfs->writefile(unhex(a[1]), &m) ? "ok" : "no");
			} else if (c == "cfread") {
				ConfigFile *f = cfs->readfile(unhex(a[1]));
				if (!f) report("none");
				else {
					vector<char> b((size_t)f->str->GetSize());
					if (!b.empty()) b.resize((size_t)f->str->Read(b.data(), (int64_t)b.size()));
					spit(a[2], b);
					cfs->close(f);
					report("ok");
				}
			} else if (c == "cfexists") {
				report(cfs->fileexists(unhex(a[1])) ? "yes" : "no");
			} else if (c == "dirwrite" || c == "dirread") {   // directory adapter: dir name file
				ConfigStorageDirectory d(a[1]);
				if (c == "dirwrite") {
					TMemoryStream m;
					auto b = slurp(a[3]);
					if (!b.empty()) m.Write(b.data(), (int64_t)b.size());
					m.Seek(0, soFromBeginning);
					report(d.writefile(unhex(a[2]), &m) ? "ok" : "no");
				} else {
					ConfigFile *f = d.readfile(unhex(a[2]));
					if (!f) report("none");
					else {
						vector<char> b((size_t)f->str->GetSize());
						if (!b.empty()) b.resize((size_t)f->str->Read(b.data(), (int64_t)b.size()));
						spit(a[3], b);
						d.close(f);
						report(d.fileexists(unhex(a[2])) ? "ok" : "no");
					}
				}
			} else report("bad", c);
		} catch (Missing &) {
			report("missing");
		} catch (DetailedException &e) {
			report("error", e.what());
		} catch (exception &e) {
			report("exception", e.what());
		} catch (...) {
			report("exception", "unknown");
		}
	}
	return 0;
}
