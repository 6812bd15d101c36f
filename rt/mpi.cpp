// One-process driver for the MPI code: plays every rank in turn (communication replaced by
// merging the scan maps here) and prints what each rank was given.
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <climits>
#include <cstdlib>
#define private public
#define protected public
#include "stempy/reader_mpi.cpp"
#include "stempy/electron_mpi.cpp"
#undef private
#undef protected
int verif_rank, verif_size;
extern "C" {
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Init(int*, char***) { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = verif_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int* r) { *r = verif_size; return 0; }
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm) { abort(); }
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm) { abort(); }
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm) { abort(); }
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm) { abort(); }
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { abort(); }
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { abort(); }
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm) { abort(); }
int MPIX_Recv_x(void*, size_t, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { abort(); }
int MPIX_Send_x(const void*, size_t, MPI_Datatype, int, int, MPI_Comm) { abort(); }
}
using namespace stempy;
using R = SectorStreamMultiPassThreadedReader;
int main(int argc, char** argv)
{
  std::string cmd = argv[1];
  if (cmd == "shares") {
    // lines: world blocks streams positions
    int w; long b, s, p;
    while (std::cin >> w >> b >> s >> p) {
      for (int r = 0; r < w; r++) {
        verif_rank = r; verif_size = w;
        R rd(std::vector<std::string>(1, argv[2]), 1);
        rd.m_streams.clear();
        for (long i = 0; i < s; i++) rd.m_streams.emplace_back(nullptr, 0);
        rd.m_streamsSize = s;
        rd.initMPI();
        rd.m_scanMap.resize(p);
        rd.m_scanMapSize = p;
        rd.partitionScanMap();
        std::cout << getSampleBlocksPerRank(w, r, (int)b) << ' ' << rd.m_streamsOffset << ' ' << rd.m_streamsSize
                  << ' ' << rd.m_scanMapOffset << ' ' << rd.m_scanMapSize << ' ';
      }
      std::cout << '\n';
    }
    return 0;
  }
  // walk <world> <threads> files...: every rank reads the headers of its files and processes the
  // frames of its positions
  int w = atoi(argv[2]), th = atoi(argv[3]);
  std::vector<std::string> files(argv + 4, argv + argc);
  std::vector<std::unique_ptr<R>> rd;
  for (int r = 0; r < w; r++) {
    verif_rank = r; verif_size = w;
    rd.emplace_back(new R(files, th));
    R& x = *rd.back();
    x.initializePool();
    x.readFirstHeader();
    x.m_scanMap.resize(x.m_scanMapSize);
    for (unsigned i = 0; i < x.m_scanMapSize; i++)
      x.m_scanPositionMutexes.push_back(std::make_unique<std::mutex>());
    x.m_processed = x.m_streamsOffset;
    std::vector<std::future<void>> fu;
    for (int t = 0; t < th; t++) fu.emplace_back(x.m_pool->enqueue([&x]() { x.readHeaders(); }));
    for (auto& f : fu) f.get();
    for (auto& s : x.m_streams) s.stream->seekg(0);
  }
  // the gather step: every rank learns the locations found by the others
  ScanMap all(rd[0]->m_scanMap.size());
  for (int r = 0; r < w; r++)
    for (size_t i = 0; i < all.size(); i++)
      for (auto& f : rd[r]->m_scanMap[i])
        for (int j = 0; j < 4; j++)
          if (f.second[j].streamIndex != -1) {
            std::cout << "sector " << i << ' ' << f.first << ' ' << j << '\n';
            all[i][f.first][j] = f.second[j];
          }
  for (int r = 0; r < w; r++) {
    R& x = *rd[r];
    x.m_scanMap = all;
    for (auto& m : x.m_scanMap)
      for (auto& f : m)
        for (int j = 0; j < 4; j++)
          if (f.second[j].streamIndex != -1) f.second[j].sectorStream = &x.m_streams[f.second[j].streamIndex];
    verif_rank = r; verif_size = w;
    x.partitionScanMap();
    x.m_processed = x.m_scanMapOffset;
    std::mutex m;
    auto func = [&m](Block& b) {
      std::lock_guard<std::mutex> l(m);
      std::cout << "frame " << b.header.imageNumbers[0] << ' ' << b.header.frameNumber << '\n';
    };
    std::vector<std::future<void>> fu;
    for (int t = 0; t < th; t++) fu.emplace_back(x.m_pool->enqueue([&x, &func]() { x.processFrames(func); }));
    for (auto& f : fu) f.get();
  }
  return 0;
}
