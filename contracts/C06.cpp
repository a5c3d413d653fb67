// C06: text and file round trips
// ASSUMES: the text of a number denotes that number (the decimal precision of the stream, 6 digits, is machine
// ASSUMES: arithmetic); sizes as instantiated; the file system stores what is written
#include "ref.hpp"
#include <cstdio>
#include <fstream>
#include <state-observation/tools/definitions.hpp>
#include <unistd.h>
using namespace vp;
using namespace stateObservation;
namespace
{
struct TempFile
{
  char name[40] = "/tmp/vp-C06-XXXXXX";
  TempFile()
  {
    int fd = mkstemp(name);
    if(fd >= 0) close(fd);
  }
  ~TempFile()
  {
    std::remove(name);
  }
};
const double tol = 2e-5;
} // namespace
static IndexedMatrixArray make(long rows, long cols, long n, long k, const std::string & nm = "x")
{
  IndexedMatrixArray a;
  for(long i = 0; i < n; ++i) a.setValue(mat(nm + std::to_string(i) + "_", rows, cols), k + i);
  return a;
}
template<class A, class B>
static void same(const std::string & l, A & a, B & b)
{
  ensure(l + ": number of elements", a.size() == b.size());
  if(a.size() != b.size()) return;
  if(a.size() == 0) return;
  ensure(l + ": first time", a.getFirstIndex() == b.getFirstIndex());
  if(a.getFirstIndex() != b.getFirstIndex()) return;
  for(TimeIndex k = a.getFirstIndex(); k < a.getNextIndex(); ++k) ensureEq(l + ": value", a[k], b[k], tol);
}
CONTRACT(file_matrices, "IndexedMatrixArrayT::writeInFile, readFromFile")
{
  TempFile f;
  long r = pick("rows", 1, 3), c = pick("cols", 1, 2), n = pick("n", 0, 3), k = pick("k", -1, 2) * 3;
  IndexedMatrixArray a = make(r, c, n, k), keep(a), b = make(1, 1, 2, 5, "old");
  bool clear = pick("clear", 0, 1), str = pick("str", 0, 1);
  if(str)
    a.writeInFile(std::string(f.name), clear);
  else
    a.writeInFile(f.name, clear);
  if(clear)
    ensure("cleared, the next time is kept", a.size() == 0 && a.getNextIndex() == keep.getNextIndex());
  else
    same("kept", a, keep);
  if(str)
    b.readFromFile(std::string(f.name), r, c);
  else
    b.readFromFile(f.name, r, c);
  same("read back", b, keep);
}
CONTRACT(file_append, "IndexedMatrixArrayT::writeInFile (append)")
{
  TempFile f;
  long r = pick("rows", 1, 2), c = pick("cols", 1, 2), n = pick("n", 1, 2), m = pick("m", 1, 2);
  IndexedMatrixArray a = make(r, c, n, 2), all(a), b;
  a.writeInFile(f.name, true);
  for(long i = 0; i < m; ++i)
  {
    Mat x = mat("z" + std::to_string(i) + "_", r, c);
    a.pushBack(x);
    all.pushBack(x);
  }
  bool append = pick("append", 0, 1);
  a.writeInFile(f.name, false, append);
  b.readFromFile(f.name, r, c);
  if(append)
    same("the two parts in order", b, all);
  else
    same("the file is overwritten", b, a);
}
CONTRACT(file_no_stamp, "IndexedMatrixArrayT::readFromFile, readVectorsFromFile (no time stamps)")
{
  TempFile f;
  long r = pick("rows", 1, 3), n = pick("n", 0, 3);
  IndexedMatrixArray a = make(r, 1, n, 0);
  {
    std::ofstream o(f.name);
    for(long i = 0; i < n; ++i)
    {
      for(long j = 0; j < r; ++j) o << (j ? " " : "") << a[i](j, 0);
      o << "\n";
    }
  }
  IndexedMatrixArray b;
  IndexedVectorArray v;
  if(pick("vectors", 0, 1))
  {
    v.readVectorsFromFile(f.name, false);
    same("one vector per line, times from zero", v, a);
  }
  else
  {
    b.readFromFile(f.name, r, 1, false);
    same("exactly the elements of the file, times from zero", b, a);
  }
}
CONTRACT(file_vectors, "IndexedMatrixArrayT::writeInFile, readVectorsFromFile")
{
  TempFile f;
  long n = pick("n", 0, 3), k = pick("k", -1, 2) * 4;
  IndexedVectorArray a, b;
  b.setValue(vec("old", 2), 3);
  for(long i = 0; i < n; ++i) a.setValue(vec("x" + std::to_string(i) + "_", 1 + (i + pick("len", 0, 1)) % 3), k + i);
  a.writeInFile(f.name);
  if(pick("str", 0, 1))
    b.readVectorsFromFile(std::string(f.name));
  else
    b.readVectorsFromFile(f.name);
  same("each line is one vector of its own length", b, a);
}
CONTRACT(file_missing, "IndexedMatrixArrayT::readFromFile, writeInFile (no such file)")
{
  IndexedMatrixArray b = make(1, 1, 2, 5);
  IndexedVectorArray v;
  v.setValue(vec("v", 2), 1);
  b.readFromFile("/nonexistent-vp/none", 1, 1);
  v.readVectorsFromFile("/nonexistent-vp/none");
  ensure("reading resets the array", b.size() == 0 && v.size() == 0);
  IndexedMatrixArray a = make(2, 1, 2, 0), keep(a);
  bool thrown = false;
  try
  {
    a.writeInFile("/nonexistent-vp/none", true);
  }
  catch(std::runtime_error &)
  {
    thrown = true;
  }
  ensure("a file that cannot be written is reported", thrown);
  same("and nothing is lost", a, keep);
}
CONTRACT(text_matrix, "tools::matrixToString, stringToMatrix")
{
  long r = pick("rows", 1, 3), c = pick("cols", 1, 3);
  Mat m = mat("m", r, c);
  ensureEq("matrix", tools::stringToMatrix(tools::matrixToString(m), r, c), m, tol);
}
CONTRACT(text_vector, "tools::vectorToString, stringToVector")
{
  long n = pick("n", 1, 4);
  Vec v = vec("v", n);
  ensureEq("length deduced", tools::stringToVector(tools::vectorToString(v)), v, tol);
  ensureEq("length given", tools::stringToVector(tools::vectorToString(v), n), v, tol);
  ensure("empty text: empty vector", tools::stringToVector("").size() == 0);
}
