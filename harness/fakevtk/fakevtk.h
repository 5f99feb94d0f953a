// A stand-in for the part of VTK that mito writes grids with (VTK is not installed in this sandbox):
// it keeps what it is given, and writing a file records the grid instead.
#pragma once
#include <array>
#include <map>
#include <string>
#include <vector>
#include <cassert>
#include <stdexcept>
#define VTK_MAJOR_VERSION 9
using vtkIdType = long long;
enum { VTK_VERTEX = 1, VTK_LINE = 3, VTK_TRIANGLE = 5, VTK_TETRA = 10 };

class vtkObject {
  public:
    int references = 0;
    virtual ~vtkObject() = default;
    void Register() { ++references; }
    void UnRegister()
    {
        if (--references <= 0)
            delete this;
    }
    void Delete() { UnRegister(); }
    void Modified() {}
};
template <class T>
class vtkSmartPointer {
    T * p = nullptr;
    void set(T * q)
    {
        if (q)
            q->Register();
        if (p)
            p->UnRegister();
        p = q;
    }

  public:
    vtkSmartPointer() = default;
    vtkSmartPointer(T * q) { set(q); }
    vtkSmartPointer(const vtkSmartPointer & o) { set(o.p); }
    template <class U>
    vtkSmartPointer(const vtkSmartPointer<U> & o)
    {
        set(o.Get());
    }
    vtkSmartPointer & operator=(const vtkSmartPointer & o)
    {
        set(o.p);
        return *this;
    }
    vtkSmartPointer & operator=(T * q)
    {
        set(q);
        return *this;
    }
    ~vtkSmartPointer() { set(nullptr); }
    static vtkSmartPointer New() { return vtkSmartPointer(new T); }
    T * operator->() const { return p; }
    T & operator*() const { return *p; }
    T * Get() const { return p; }
    T * GetPointer() const { return p; }
    operator T *() const { return p; }
};
template <class T>
class vtkNew : public vtkSmartPointer<T> {
  public:
    vtkNew() : vtkSmartPointer<T>(new T) {}
};

class vtkPoints : public vtkObject {
  public:
    std::vector<std::array<double, 3>> x;
    static vtkPoints * New() { return new vtkPoints; }
    vtkIdType InsertNextPoint(double a, double b, double c)
    {
        x.push_back({ a, b, c });
        return vtkIdType(x.size()) - 1;
    }
    vtkIdType InsertNextPoint(const double * v) { return InsertNextPoint(v[0], v[1], v[2]); }
    void InsertPoint(vtkIdType i, double a, double b, double c)
    {
        if (x.size() <= size_t(i))
            x.resize(size_t(i) + 1);
        x[size_t(i)] = { a, b, c };
    }
    void InsertPoint(vtkIdType i, const double * v) { InsertPoint(i, v[0], v[1], v[2]); }
    void SetPoint(vtkIdType i, double a, double b, double c) { x.at(size_t(i)) = { a, b, c }; }
    void SetPoint(vtkIdType i, const double * v) { SetPoint(i, v[0], v[1], v[2]); }
    void SetNumberOfPoints(vtkIdType n) { x.resize(size_t(n)); }
    void Resize(vtkIdType) {}
    int Allocate(vtkIdType, vtkIdType = 1000) { return 1; }
    vtkIdType GetNumberOfPoints() const { return vtkIdType(x.size()); }
    double * GetPoint(vtkIdType i) { return x.at(size_t(i)).data(); }
    void SetDataTypeToDouble() {}
};
class vtkIdList : public vtkObject {
  public:
    std::vector<vtkIdType> id;
    static vtkIdList * New() { return new vtkIdList; }
    void SetNumberOfIds(vtkIdType n) { id.resize(size_t(n)); }
    vtkIdType GetNumberOfIds() const { return vtkIdType(id.size()); }
    vtkIdType GetId(vtkIdType i) const { return id.at(size_t(i)); }
    void SetId(vtkIdType i, vtkIdType v) { id.at(size_t(i)) = v; }
    void InsertId(vtkIdType i, vtkIdType v)
    {
        if (id.size() <= size_t(i))
            id.resize(size_t(i) + 1);
        id[size_t(i)] = v;
    }
    vtkIdType InsertNextId(vtkIdType v)
    {
        id.push_back(v);
        return vtkIdType(id.size()) - 1;
    }
    void Reset() { id.clear(); }
};
class vtkCell : public vtkObject {
  public:
    vtkIdList * PointIds = new vtkIdList;
    int type;
    vtkCell(int t, int n) : type(t)
    {
        PointIds->Register();
        PointIds->SetNumberOfIds(n);
    }
    ~vtkCell() override { PointIds->UnRegister(); }
    int GetCellType() const { return type; }
    vtkIdList * GetPointIds() const { return PointIds; }
    vtkIdType GetPointId(vtkIdType i) const { return PointIds->GetId(i); }
    vtkIdType GetNumberOfPoints() const { return PointIds->GetNumberOfIds(); }
};
template <int T, int N>
class fakeCell : public vtkCell {
  public:
    fakeCell() : vtkCell(T, N) {}
    static fakeCell * New() { return new fakeCell; }
};
class vtkVertex : public fakeCell<VTK_VERTEX, 1> {};
class vtkLine : public fakeCell<VTK_LINE, 2> {};
class vtkTriangle : public fakeCell<VTK_TRIANGLE, 3> {};
class vtkTetra : public fakeCell<VTK_TETRA, 4> {};

class vtkDataArray : public vtkObject {
  public:
    std::string name;
    int components = 1;
    std::vector<double> v;
    void SetName(const char * n) { name = n; }
    const char * GetName() const { return name.c_str(); }
    void SetNumberOfComponents(int n) { components = n; }
    int GetNumberOfComponents() const { return components; }
    void SetNumberOfTuples(vtkIdType n) { v.resize(size_t(n) * size_t(components), -12345); }
    vtkIdType GetNumberOfTuples() const { return vtkIdType(v.size()) / components; }
    void SetNumberOfValues(vtkIdType n) { v.resize(size_t(n), -12345); }
    double & at(vtkIdType i, int k)
    {
        if (i < 0 || k < 0 || k >= components)
            throw std::out_of_range("component of an array");
        return v.at(size_t(i) * size_t(components) + size_t(k));
    }
    template <class V>
    void SetTuple(vtkIdType i, const V * t)
    {
        for (int k = 0; k < components; ++k)
            at(i, k) = double(t[k]);
    }
    void SetTypedTuple(vtkIdType i, const double * t) { SetTuple(i, t); }
    void InsertTuple(vtkIdType i, const double * t)
    {
        if (GetNumberOfTuples() <= i)
            SetNumberOfTuples(i + 1);
        SetTuple(i, t);
    }
    vtkIdType InsertNextTuple(const double * t)
    {
        vtkIdType i = GetNumberOfTuples();
        InsertTuple(i, t);
        return i;
    }
    void SetTuple1(vtkIdType i, double a) { at(i, 0) = a; }
    void SetTuple2(vtkIdType i, double a, double b)
    {
        at(i, 0) = a;
        at(i, 1) = b;
    }
    void SetTuple3(vtkIdType i, double a, double b, double c)
    {
        SetTuple2(i, a, b);
        at(i, 2) = c;
    }
    void SetComponent(vtkIdType i, int k, double a) { at(i, k) = a; }
    double GetComponent(vtkIdType i, int k) { return at(i, k); }
    void SetValue(vtkIdType i, double a) { v.at(size_t(i)) = a; }
    void InsertNextValue(double a) { v.push_back(a); }
};
class vtkDoubleArray : public vtkDataArray {
  public:
    static vtkDoubleArray * New() { return new vtkDoubleArray; }
};

class vtkPointData : public vtkObject {
  public:
    std::vector<vtkSmartPointer<vtkDataArray>> arrays;
    int AddArray(vtkDataArray * a)
    {
        // (an array of the same name is replaced)
        for (size_t i = 0; i < arrays.size(); ++i)
            if (arrays[i]->name == a->name) {
                arrays[i] = a;
                return int(i);
            }
        arrays.push_back(a);
        return int(arrays.size()) - 1;
    }
    int SetScalars(vtkDataArray * a) { return AddArray(a); }
    int SetVectors(vtkDataArray * a) { return AddArray(a); }
    int GetNumberOfArrays() const { return int(arrays.size()); }
};
class vtkUnstructuredGrid : public vtkObject {
  public:
    vtkSmartPointer<vtkPoints> points;
    struct Cell {
        int type;
        std::vector<vtkIdType> ids;
    };
    std::vector<Cell> cells;
    vtkSmartPointer<vtkPointData> data = vtkSmartPointer<vtkPointData>::New();
    static vtkUnstructuredGrid * New() { return new vtkUnstructuredGrid; }
    void SetPoints(vtkPoints * p) { points = p; }
    vtkPoints * GetPoints() const { return points; }
    vtkIdType GetNumberOfPoints() const { return points ? points->GetNumberOfPoints() : 0; }
    vtkIdType GetNumberOfCells() const { return vtkIdType(cells.size()); }
    vtkIdType InsertNextCell(int type, vtkIdList * l)
    {
        cells.push_back({ type, l->id });
        return vtkIdType(cells.size()) - 1;
    }
    vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * l)
    {
        cells.push_back({ type, { l, l + n } });
        return vtkIdType(cells.size()) - 1;
    }
    void Allocate(vtkIdType = 1000, int = 1000) {}
    bool AllocateExact(vtkIdType, vtkIdType) { return true; }
    bool AllocateEstimate(vtkIdType, vtkIdType) { return true; }
    vtkPointData * GetPointData() const { return data; }
};

// what was written
struct fakeFile {
    std::string name;
    vtkSmartPointer<vtkUnstructuredGrid> grid;
    size_t points, cells, arrays;
    int pieces = 0, first = 0, last = 0;
};
inline std::vector<fakeFile> & fakeFiles()
{
    static std::vector<fakeFile> f;
    return f;
}
inline int & fakeRank()
{
    static int r = 0;
    return r;
}
inline int & fakeTasks()
{
    static int n = 1;
    return n;
}
class vtkXMLUnstructuredGridWriter : public vtkObject {
  public:
    fakeFile f {};
    static vtkXMLUnstructuredGridWriter * New() { return new vtkXMLUnstructuredGridWriter; }
    void SetFileName(const char * n) { f.name = n; }
    void SetInputData(vtkUnstructuredGrid * g) { f.grid = g; }
    void SetInput(vtkUnstructuredGrid * g) { f.grid = g; }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    void SetDataModeToAppended() {}
    int Write()
    {
        f.points = size_t(f.grid->GetNumberOfPoints());
        f.cells = f.grid->cells.size();
        f.arrays = f.grid->data->arrays.size();
        fakeFiles().push_back(f);
        return 1;
    }
    int Update() { return Write(); }
};
class vtkXMLPUnstructuredGridWriter : public vtkXMLUnstructuredGridWriter {
  public:
    static vtkXMLPUnstructuredGridWriter * New() { return new vtkXMLPUnstructuredGridWriter; }
    void SetNumberOfPieces(int n) { f.pieces = n; }
    void SetStartPiece(int n) { f.first = n; }
    void SetEndPiece(int n) { f.last = n; }
};
class vtkMultiProcessController : public vtkObject {
  public:
    static void SetGlobalController(vtkMultiProcessController *) {}
};
class vtkMPIController : public vtkMultiProcessController {
  public:
    static vtkMPIController * New() { return new vtkMPIController; }
    void Initialize(void *, void *, int) {}
    void Finalize(int) {}
    int GetNumberOfProcesses() const { return fakeTasks(); }
    int GetLocalProcessId() const { return fakeRank(); }
};
