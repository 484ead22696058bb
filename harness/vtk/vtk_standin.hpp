// A stand-in for the parts of the VTK library that cafes uses: it keeps what it is given, and a
// writer records what VTK would write, at the time it would write it.  Grids, arrays and
// attributes follow VTK's documentation: extents inclusive, points of single precision unless
// asked otherwise, the last attribute set of a name wins.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <iostream>
using std::ofstream; using std::endl; using std::ios;   // as vtkIOStream.h does
#define VTK_MAJOR_VERSION 8

namespace vtkrec
{
  struct Array { std::string name; int comp = 1; std::vector<double> v; bool complete = true; };
  struct File { std::string path; bool poly = false; std::vector<int> extent; std::vector<double> points; std::vector<Array> arrays; std::string scalars, vectors; };
  inline std::vector<File> &files() { static std::vector<File> f; return f; }
  inline std::vector<std::string> &errors() { static std::vector<std::string> e; return e; }
}
struct vtkObject { void Delete() { if (deleted) vtkrec::errors().push_back("an object is deleted twice"); deleted = true; } bool deleted = false; virtual ~vtkObject() {} };

template<typename T> struct vtkSmartPointer
{
  T *p = nullptr;
  vtkSmartPointer(T *q = nullptr) : p(q) {}
  static vtkSmartPointer New() { return T::New(); }
  T *operator->() const { return p; }
  operator T *() const { return p; }
};

struct vtkDoubleArray : vtkObject
{
  vtkrec::Array a;
  static vtkDoubleArray *New() { return new vtkDoubleArray; }
  void SetName(const char *n) { a.name = n; }
  void SetNumberOfComponents(int n) { if (!a.v.empty()) vtkrec::errors().push_back("components changed after values were set"); a.comp = n; }
  void SetNumberOfTuples(long n) { a.v.resize(n * a.comp, 7e77); }
  void SetValue(long i, double x) { if (i < 0 || i >= (long)a.v.size()) vtkrec::errors().push_back("value set outside the array"); else a.v[i] = x; }
  void InsertNextValue(double x) { a.v.push_back(x); }
  void tuple(std::vector<double> const &t) { if ((int)t.size() != a.comp) vtkrec::errors().push_back("tuple of " + std::to_string(t.size()) + " values in an array of " + std::to_string(a.comp) + " components"); for (double x : t) a.v.push_back(x); }
  void InsertNextTuple1(double x) { tuple({x}); }
  void InsertNextTuple2(double x, double y) { tuple({x, y}); }
  void InsertNextTuple3(double x, double y, double z) { tuple({x, y, z}); }
};
struct vtkFloatArray : vtkDoubleArray { static vtkFloatArray *New() { return new vtkFloatArray; } };

struct vtkPoints : vtkObject
{
  std::vector<double> p; bool dbl = false;
  static vtkPoints *New() { return new vtkPoints; }
  void SetDataTypeToDouble() { dbl = true; }
  void SetNumberOfPoints(long n) { p.resize(3 * n, 7e77); }
  void set(double *q, double x, double y, double z) { q[0] = dbl ? x : (float)x; q[1] = dbl ? y : (float)y; q[2] = dbl ? z : (float)z; }
  void SetPoint(long i, double x, double y, double z) { if (i < 0 || 3 * i >= (long)p.size()) vtkrec::errors().push_back("point set outside the list"); else set(&p[3 * i], x, y, z); }
  long InsertNextPoint(double x, double y, double z) { p.resize(p.size() + 3); set(&p[p.size() - 3], x, y, z); return p.size() / 3 - 1; }
};
struct vtkPointData : vtkObject
{
  std::vector<vtkDoubleArray *> arrays; vtkDoubleArray *scalars = nullptr, *vectors = nullptr;
  void add(vtkDoubleArray *a) { for (auto *b : arrays) if (a == b) return; for (auto *&b : arrays) if (a->a.name == b->a.name) { b = a; return; } arrays.push_back(a); }
  void AddArray(vtkDoubleArray *a) { add(a); }
  void SetScalars(vtkDoubleArray *a) { add(a); scalars = a; }
  void SetVectors(vtkDoubleArray *a) { if (a->a.comp != 3) vtkrec::errors().push_back("vectors of other than three components"); add(a); vectors = a; }
};
struct vtkDataSet : vtkObject
{
  vtkPoints *points = nullptr; vtkPointData data; std::vector<int> extent; bool poly = false;
  vtkPointData *GetPointData() { return &data; }
  void SetPoints(vtkPoints *p) { points = p; }
  void Update() {}
};
struct vtkStructuredGrid : vtkDataSet
{
  static vtkStructuredGrid *New() { return new vtkStructuredGrid; }
  void SetExtent(int a, int b, int c, int d, int e, int f) { extent = {a, b, c, d, e, f}; }
  void SetDimensions(int a, int b, int c) { extent = {0, a - 1, 0, b - 1, 0, c - 1}; }
};
struct vtkPolyData : vtkDataSet { vtkPolyData() { poly = true; } static vtkPolyData *New() { return new vtkPolyData; } void Allocate(long = 0, int = 0) {} };
struct vtkWriterStandIn : vtkObject
{
  std::string name; vtkDataSet *d = nullptr;
  void SetFileName(const char *n) { name = n; }
  void SetInput(vtkDataSet *x) { d = x; }
  void SetInputData(vtkDataSet *x) { d = x; }
  void SetDataModeToAscii() {}
  void SetDataModeToBinary() {}
  int Write()
  {
    vtkrec::File f; f.path = name;
    if (!d) { vtkrec::errors().push_back("nothing to write"); return 0; }
    if (deleted || d->deleted) vtkrec::errors().push_back("written after it was deleted");
    f.extent = d->extent; f.poly = d->poly;
    if (d->points) f.points = d->points->p;
    for (auto *a : d->data.arrays) f.arrays.push_back(a->a);
    if (d->data.scalars) f.scalars = d->data.scalars->a.name;
    if (d->data.vectors) f.vectors = d->data.vectors->a.name;
    vtkrec::files().push_back(f);
    return 1;
  }
  int Update() { return Write(); }
};
struct vtkXMLStructuredGridWriter : vtkWriterStandIn { static vtkXMLStructuredGridWriter *New() { return new vtkXMLStructuredGridWriter; } };
struct vtkXMLPolyDataWriter : vtkWriterStandIn { static vtkXMLPolyDataWriter *New() { return new vtkXMLPolyDataWriter; } };
