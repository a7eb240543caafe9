// Reads configurations of a database through the library.  Commands come line by line on stdin, fields separated by tabs.
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "Class_1CD.h"
#include "Common.h"
#include "ConfigStorage.h"
#include "DetailedException.h"
#include "Messenger.h"
#include "MessageRegistration.h"
#include "TableFiles.h"

using namespace std;

extern Registrator msreg_g;

static void report(const string &what, const string &detail) {
	string d = detail;
	for (char &c : d) if (c == '\n' || c == '\r') c = ' ';
	cout << what << "\t" << d << endl;
}

static void save(TStream *s, const string &path) {
	s->Seek(0l, soBeginning);
	int64_t n = s->GetSize();
	vector<char> buf((size_t)n);
	if (n) s->Read(buf.data(), n);
	ofstream f(path, ios::binary | ios::trunc);
	f.write(buf.data(), n);
}

int main(int argc, char **argv) {
	Messenger mess;
	msreg_g.AddMessageRegistrator(&mess);
	unique_ptr<T_1CD> base;
	vector<unique_ptr<TableFiles>> tf;
	unique_ptr<ConfigStorage> cs;
	auto files = [&](Table *t) {
		tf.emplace_back(new TableFiles(t));
		return tf.back().get();
	};
	string line;
	while (getline(cin, line)) {
		vector<string> a;
		string x;
		istringstream is(line);
		while (getline(is, x, '\t')) a.push_back(x);
		if (a.empty()) continue;
		const string &c = a[0];
		try {
			if (c == "open") {
				base.reset(new T_1CD(a[1], &mess, false));
				report(base->is_open() ? "ok" : "no", "");
			} else if (c == "extdb") {
				report(base->save_config_ext_db(a[1], a[2]) ? "ok" : "no", "");
			} else if (c == "ext") {
				report(base->save_config_ext(a[1], BinaryGuid(a[2]), a[3]) ? "ok" : "no", "");
			} else if (c == "cfg") {
				cs.reset();
				if (a[1] == "config") cs.reset(new ConfigStorageTableConfig(files(base->table_config)));
				else if (a[1] == "save") cs.reset(new ConfigStorageTableConfigSave(files(base->table_config), files(base->table_configsave)));
				else if (a[1] == "cas") cs.reset(new ConfigStorageTableConfigCas(files(base->table_configcas), a[2]));
				else if (a[1] == "cassave") cs.reset(new ConfigStorageTableConfigCasSave(files(base->table_configcas), files(base->table_configcassave), BinaryGuid(a[3]), a[2]));
				else if (a[1] == "cf") cs.reset(new ConfigStorageCFFile(a[2]));
				else if (a[1] == "dir") cs.reset(new ConfigStorageDirectory(a[2]));
				report("ok", "");
			} else if (c == "read") {      // read path output
				ConfigFile *f = cs->readfile(a[1]);
				if (!f) report("none", "");
				else {
					save(f->str, a[2]);
					cs->close(f);
					report("ok", "");
				}
			} else if (c == "exists") {
				report(cs->fileexists(a[1]) ? "yes" : "no", "");
			} else if (c == "done") {
				cs.reset();
				report("ok", "");
			} else report("bad", c);
		} catch (DetailedException &e) {
			report("error", e.what());
		} catch (exception &e) {
			report("exception", e.what());
		}
	}
	cs.reset();
	return 0;
}
