// Drives the real windows of the graphical tool (offscreen) and reports what they show.
// Commands come line by line on stdin, fields separated by tabs; every answer is one or more lines, the last one begins with "end".
#include <QAction>
#include <QApplication>
#include <QCheckBox>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QFileDialog>
#include <QFont>
#include <QHeaderView>
#include <QLineEdit>
#include <QListWidget>
#include <QMessageBox>
#include <QPlainTextEdit>
#include <QPushButton>
#include <QStringListModel>
#include <QTabWidget>
#include <QTableView>
#include <QTimer>
#include <QTreeView>

#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "Messenger.h"
#include "MessageRegistration.h"
#include "Class_1CD.h"

#include "BlobViewer/blob_viewer.h"
#include "QHexEdit/qhexview.h"
#include "cache.h"
#include "configurations_window.h"
#include "container_form.h"
#include "export_table_to_xml_dialog.h"
#include "littlelogwindow.h"
#include "mainwindow.h"
#include "models/stream_device.h"
#include "models/table_data_model.h"
#include "skobkatextwindow.h"
#include "starter.h"
#include "table_data_window.h"
#include "table_fields_window.h"

using namespace std;

extern Registrator msreg_g;

static string hex(const QByteArray &a) { return a.toHex().toStdString(); }
static string hex(const QString &s) { return hex(s.toUtf8()); }

static void out(const string &s) { cout << s << "\n"; }

static void pump() {
	for (int i = 0; i < 3; i++) QApplication::processEvents();
}

// answers the next file dialog with the given path, closes message boxes
static QString next_path;
static int dialogs = 0, boxes = 0;
static void answer() {
	for (QWidget *w : QApplication::topLevelWidgets()) {
		if (auto d = qobject_cast<QFileDialog*>(w)) {
			if (!d->isVisible()) continue;
			dialogs++;
			if (next_path.isEmpty()) { d->reject(); return; }
			auto e = d->findChild<QLineEdit*>("fileNameEdit");
			if (e) e->setText(next_path);
			QMetaObject::invokeMethod(d, "accept", Qt::DirectConnection);
			return;
		}
		if (auto b = qobject_cast<QMessageBox*>(w)) {
			if (!b->isVisible()) continue;
			boxes++;
			b->accept();
			return;
		}
	}
}

static void tree(QAbstractItemModel *m, const QModelIndex &parent, int depth) {
	int n = m->rowCount(parent);
	for (int r = 0; r < n; r++) {
		QModelIndex i = m->index(r, 0, parent);
		if (!i.isValid()) { out("badindex\t" + to_string(depth) + "\t" + to_string(r)); continue; }
		if (m->parent(i) != parent) out("badparent\t" + to_string(depth) + "\t" + to_string(r));
		string line = "node\t" + to_string(depth);
		for (int c = 0; c < m->columnCount(parent); c++) {
			QModelIndex k = m->index(r, c, parent);
			line += "\t" + hex(m->data(k, Qt::DisplayRole).toString());
			if (c == 1) {
				QVariant e = m->data(k, Qt::EditRole);
				if (e.canConvert<StreamDevice*>() || e.canConvert<QIODevice*>()) {
					auto d = static_cast<QIODevice*>(e.value<StreamDevice*>());
					if (!d) d = e.value<QIODevice*>();
					if (!d) { line += "\tnodevice"; continue; }
					d->open(QIODevice::ReadOnly);
					line += "\tB" + hex(d->readAll());
					delete d;
				} else line += "\tT" + hex(e.toString());
			}
		}
		out(line);
		tree(m, i, depth + 1);
	}
}

static void viewer(BlobViewer *v) {
	auto tabs = v->findChild<QTabWidget*>("tabWidget");
	auto text = v->findChild<QPlainTextEdit*>("plainTextEdit");
	auto view = v->findChild<QTreeView*>("treeView");
	auto hexv = v->findChild<QHexView*>("frame");
	out("title\t" + hex(v->windowTitle()));
	for (int i = 0; i < tabs->count(); i++) {
		auto w = tabs->widget(i);
		out("tab\t" + w->objectName().toStdString() + (i == tabs->currentIndex() ? "\tcurrent" : ""));
		if (w->objectName() == "textDataTab") out("text\t" + hex(text->document()->toRawText()));
		if (w->objectName() == "blobDataTab" && hexv->document()) {
			auto d = hexv->document();
			out("hex\t" + hex(d->read(0, d->length())));
		}
		if (w->objectName() == "parsedDataTab" && view->model()) {
			tree(view->model(), QModelIndex(), 0);
		}
	}
}

static void rows(QAbstractItemModel *m, bool edit) {
	int nr = m->rowCount(), nc = m->columnCount();
	string h = "head";
	for (int c = 0; c < nc; c++) h += "\t" + hex(m->headerData(c, Qt::Horizontal, Qt::DisplayRole).toString());
	out(h);
	for (int r = 0; r < nr; r++) {
		string line = "row";
		for (int c = 0; c < nc; c++) {
			auto i = m->index(r, c);
			if (c == 0) {
				QVariant f = m->data(i, Qt::FontRole);
				line += f.isValid() && f.value<QFont>().italic() ? "\titalic" : "\tplain";
			}
			try {
				line += "\t" + hex(m->data(i, Qt::DisplayRole).toString());
			} catch (DetailedException &e) { line += "\t!" + hex(QString(e.what())); }
			if (edit) {
				try {
					line += "\t" + hex(m->data(i, Qt::EditRole).toString());
				} catch (DetailedException &e) { line += "\t!" + hex(QString(e.what())); }
			}
		}
		out(line);
	}
}

template<typename T> static T *top() {
	T *r = nullptr;
	for (QWidget *w : QApplication::topLevelWidgets()) if (auto t = qobject_cast<T*>(w)) if (t->isVisible()) r = t;
	return r;
}

template<typename T> static vector<T*> children(QObject *o) {
	vector<T*> r;
	for (auto t : o->findChildren<T*>()) r.push_back(t);
	return r;
}

int main(int argc, char **argv) {
	QApplication app(argc, argv);
	app.setQuitOnLastWindowClosed(false);
	qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &m) { cerr << m.toStdString() << endl; });
	QCoreApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
	MainWindow *mw = nullptr;
	ContainerForm *cf = nullptr;
	TableDataWindow *tw = nullptr;
	BlobViewer *bv = nullptr;
	QTimer clicks;
	QObject::connect(&clicks, &QTimer::timeout, answer);
	clicks.start(20);
	string line;
	while (getline(cin, line)) {
		vector<string> a;
		string x;
		istringstream is(line);
		while (getline(is, x, '\t')) a.push_back(x);
		if (a.empty()) continue;
		const string &c = a[0];
		string result;
		auto str = [&](size_t i) { return i < a.size() ? QString::fromStdString(a[i]) : QString(); };
		auto num = [&](size_t i) { return i < a.size() ? stoi(a[i]) : 0; };
		dialogs = boxes = 0;
		try {
			if (c == "cache") {
				Cache k(str(1));
				if (a.size() > 2) k.addDbToList(str(2));
				for (auto &s : k.getCachedList()) out("item\t" + hex(s));
			} else if (c == "open") {
				auto w = new StarterWindow();
				w->setCache(new Cache(str(2)));
				bool ok = w->openDatabase(str(1));
				pump();
				mw = top<MainWindow>();
				cf = top<ContainerForm>();
				result = string(ok ? "ok" : "refused") + (mw ? " main" : "") + (cf ? " container" : "") + (top<LittleLogWindow>() ? " log" : "");
				if (cf) { bv = cf->findChild<BlobViewer*>(); result += "\t" + hex(cf->windowTitle()); }
				if (mw) result += "\t" + hex(mw->windowTitle());
			} else if (c == "tables") {
				rows(mw->findChild<QTableView*>("tableListView")->model(), false);
			} else if (c == "table") {
				auto v = mw->findChild<QTableView*>("tableListView");
				emit v->doubleClicked(v->model()->index(num(1), 0));
				pump();
				tw = nullptr;
				for (auto t : children<TableDataWindow>(mw)) if (t->isActiveWindow() || t->isVisible()) tw = t;
				// the window of this table is the one with its title
				QString name = v->model()->index(num(1), 0).data().toString();
				for (auto t : children<TableDataWindow>(mw)) if (t->isVisible() && t->windowTitle() == name) tw = t;
				bv = tw->findChild<BlobViewer*>("dataWidget");
				result = hex(tw->windowTitle());
				auto box = tw->findChild<QComboBox*>("indexChooseBox");
				for (int i = 0; i < box->count(); i++)
					out("index\t" + hex(box->itemText(i)) + (i == box->currentIndex() ? "\tcurrent" : ""));
			} else if (c == "fields") {
				tw->findChild<QPushButton*>("fieldsButton")->click();
				pump();
				auto f = children<TableFieldsWindow>(tw).at(0);
				rows(f->findChild<QTableView*>("fieldsView")->model(), false);
				f->hide();
			} else if (c == "description") {
				tw->findChild<QPushButton*>("descriptionButton")->click();
				pump();
				auto s = children<SkobkaTextWindow>(tw).back();
				out("window\t" + hex(s->windowTitle()));
				viewer(s->findChild<BlobViewer*>());
				delete s;
			} else if (c == "choose") {
				auto box = tw->findChild<QComboBox*>("indexChooseBox");
				box->setCurrentIndex(num(1));
				emit box->activated(num(1));
				pump();
			} else if (c == "rows") {
				rows(tw->findChild<QTableView*>("dataView")->model(), true);
			} else if (c == "select") {
				auto v = tw->findChild<QTableView*>("dataView");
				auto i = v->model()->index(num(1), num(2));
				v->selectionModel()->clear();
				v->setCurrentIndex(i);
				v->selectionModel()->select(i, QItemSelectionModel::ClearAndSelect);
				pump();
				viewer(bv);
			} else if (c == "view") {
				viewer(bv);
			} else if (c == "openitem") {      // rows from the root of the tree
				auto v = bv->findChild<QTreeView*>("treeView");
				QModelIndex i;
				auto m = v->model();
				for (size_t k = 2; k < a.size(); k++) i = m->index(num(k), k + 1 == a.size() ? num(1) : 0, i);
				set<BlobViewer*> before;
				for (QWidget *w : QApplication::topLevelWidgets()) if (auto b = qobject_cast<BlobViewer*>(w)) { before.insert(b); b->hide(); }
				emit v->doubleClicked(i);
				pump();
				BlobViewer *n = nullptr;
				for (QWidget *w : QApplication::topLevelWidgets()) if (auto b = qobject_cast<BlobViewer*>(w)) if (b->isVisible()) n = b;
				if (n) viewer(n);
				result = n ? "ok" : "none";
			} else if (c == "saveblob") {
				auto v = tw->findChild<QTableView*>("dataView");
				v->setCurrentIndex(v->model()->index(num(1), num(2)));
				next_path = str(3);
				tw->findChild<QPushButton*>("saveBlobButton")->click();
				result = to_string(dialogs);
			} else if (c == "export") {      // file, values to files, unpack them
				next_path = str(1);
				tw->findChild<QPushButton*>("exportToXmlButton")->click();
				pump();
				auto d = children<ExportTableToXmlDialog>(tw).back();
				d->findChild<QCheckBox*>("exportBlobCheckBox")->setChecked(num(2));
				d->findChild<QCheckBox*>("unpackBlobCheckBox")->setChecked(num(3));
				for (auto b : d->findChild<QDialogButtonBox*>("buttonBox")->buttons())
					if (d->findChild<QDialogButtonBox*>("buttonBox")->buttonRole(b) == QDialogButtonBox::AcceptRole) { b->click(); break; }
				pump();
				result = to_string(dialogs) + "\t" + to_string(boxes);
				delete d;
			} else if (c == "configs") {
				mw->findChild<QPushButton*>("configurationsButton")->click();
				pump();
				rows(children<ConfigurationsWindow>(mw).at(0)->findChild<QTableView*>("vendorsTable")->model(), false);
			} else if (c == "saveconfig" || c == "savedbconfig" || c == "savevendor") {
				auto w = children<ConfigurationsWindow>(mw).at(0);
				next_path = str(1);
				if (c == "savevendor") {
					auto v = w->findChild<QTableView*>("vendorsTable");
					v->setCurrentIndex(v->model()->index(num(2), 0));
				}
				w->findChild<QPushButton*>(c == "saveconfig" ? "saveConfigButton" : c == "savedbconfig" ? "saveDbConfigButton" : "saveVendorConfigButton")->click();
				pump();
				result = to_string(dialogs) + "\t" + to_string(boxes);
			} else if (c == "exportfiles" || c == "importfiles") {      // directory, rows of the list
				auto v = mw->findChild<QTableView*>("tableListView");
				v->selectionModel()->clear();
				for (size_t k = 2; k < a.size(); k++)
					v->selectionModel()->select(v->model()->index(num(k), 0), QItemSelectionModel::Select);
				next_path = str(1);
				QMetaObject::invokeMethod(mw, c == "exportfiles" ? "export_blob_file" : "import_blob_file", Qt::DirectConnection);
				result = to_string(dialogs);
			} else if (c == "log") {
				for (auto w : QApplication::topLevelWidgets()) for (auto l : w->findChildren<QListWidget*>("logList"))
					for (int i = 0; i < l->count(); i++) out("log\t" + hex(l->item(i)->text()));
			} else result = "unknown";
			cout << "end\tok\t" << result << endl;
		} catch (DetailedException &e) {
			cout << "end\terror\t" << hex(QString(e.what())) << endl;
		} catch (exception &e) {
			cout << "end\texception\t" << hex(QString(e.what())) << endl;
		}
		next_path.clear();
	}
	cout.flush();
	fflush(stdout);
	_exit(0);
}
