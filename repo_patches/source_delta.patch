From e29fa52fc3a106ced82ede8ff8aab7741f2db104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 01/23] fix: report failed writes of prof, vtu and csv files
 instead of exiting with success

---
 src/particles_exporter.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index fb0e6c9..3baec24 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -45,6 +45,17 @@ std::string ParticlesExporter::dataArrayEnd() const {
     return "</DataArray>";
 }
 
+/**
+ * @brief Close an output file and exit if anything written to it may have been lost
+ */
+static void closeOrExit(std::ofstream& ofs, const fs::path& path) {
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "failed to write " << path << endl;
+        std::exit(-1);
+    }
+}
+
 void ParticlesExporter::setParticles(const Particles& particles) {
     this->particles = particles;
 }
@@ -64,6 +75,8 @@ void ParticlesExporter::toProf(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
         ofs << endl;
     }
+
+    closeOrExit(ofs, path);
 }
 void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
     std::ofstream ofs(path);
@@ -177,6 +190,8 @@ void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, con
     ofs << "</FieldData>" << endl;
     ofs << "</UnstructuredGrid>" << endl;
     ofs << "</VTKFile>" << endl;
+
+    closeOrExit(ofs, path);
 }
 
 void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
@@ -341,6 +356,8 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
     ofs << "</VTKFile>" << endl;
+
+    closeOrExit(ofs, path);
 }
 
 void ParticlesExporter::toVtu(
@@ -370,4 +387,6 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
         ofs << endl;
     }
+
+    closeOrExit(ofs, path);
 }
-- 
2.43.0


From 5da651b1a93b80d1a49b5081854038228db8b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 02/23] fix: build snapshot names without streams that fail
 silently when memory runs out

---
 src/saver.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/saver.cpp b/src/saver.cpp
index 6da66b1..47c2ae3 100644
--- a/src/saver.cpp
+++ b/src/saver.cpp
@@ -13,20 +13,15 @@ Saver::Saver(const fs::path& dir, const bool outputVtkInBinary) {
 void Saver::save(const MPS& mps, const double time) {
     exporter.setParticles(mps.particles);
 
-    std::stringstream profName;
-    profName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".prof";
-    fs::path profPath = dir / "prof" / profName.str();
-    exporter.toProf(profPath, time);
-
-    std::stringstream vtuName;
-    vtuName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".vtu";
-    fs::path vtuPath = dir / "vtu" / vtuName.str();
-    exporter.toVtu(vtuPath, time, mps.refValuesForNumberDensity.n0, outputVtkInBinary);
-
-    std::stringstream csvName;
-    csvName << "output_" << std::setfill('0') << std::setw(4) << fileNumber << ".csv";
-    fs::path csvPath = dir / "csv" / csvName.str();
-    exporter.toCsv(csvPath, time);
+    std::string number = std::to_string(fileNumber);
+    if (number.size() < 4) {
+        number.insert(0, 4 - number.size(), '0');
+    }
+    std::string name = "output_" + number;
+
+    exporter.toProf(dir / "prof" / (name + ".prof"), time);
+    exporter.toVtu(dir / "vtu" / (name + ".vtu"), time, mps.refValuesForNumberDensity.n0, outputVtkInBinary);
+    exporter.toCsv(dir / "csv" / (name + ".csv"), time);
 
     fileNumber++;
 }
-- 
2.43.0


From 5d038b1203ae731578392ce603700eb0021c1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 03/23] fix: refuse to write a binary vtu whose buffered data
 is incomplete

---
 src/particles_exporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index 3baec24..e493df4 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -352,6 +352,10 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     // ---------------------
     // --- Appended Data ---
     // ---------------------
+    if (binaryData.fail()) {
+        cerr << "failed to prepare the binary data of " << path << endl;
+        std::exit(-1);
+    }
     ofs << "<AppendedData encoding=\"raw\">" << endl;
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
-- 
2.43.0


From 9c4a9093ba0b3e91f1f99110a042d1b350e71f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 04/23] fix: refuse prof files that end early or hold invalid
 data

---
 src/particles_loader/prof.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..35a0b4d 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,6 +23,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
+    if (ifs.fail() || particleSize < 0) {
+        cerr << "invalid header in prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
@@ -31,6 +35,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
+        if (ifs.fail()) {
+            cerr << "incomplete or invalid data of particle " << i << " in prof file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 87e4d30163206ec548737dd3074e71f360ccbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 05/23] fix: refuse csv files without a required column instead
 of using indeterminate values

---
 src/particles_loader/csv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..b62efc4 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const char* column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "csv file has no column " << column << ": " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
+    }
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
-- 
2.43.0


From adcf65ac96b7b6cd3667eb4cc4f9d952abd8bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 06/23] fix: refuse csv files that do not hold the declared
 number of particles

---
 src/particles_loader/csv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index b62efc4..a1f6b12 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -41,6 +41,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
     }
 
+    if (particles.size() != numParticles) {
+        cerr << "csv file declares " << numParticles << " particles but has " << particles.size() << ": "
+             << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     return std::make_pair(startTime, particles);
 }
 
-- 
2.43.0


From 8ff34dc4c90b753910f3609a773eebbc794fe8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 07/23] fix: do not take the number density of a vtu file for
 the density

---
 src/particles_loader/vtu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..ada7603 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -100,7 +100,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        // NOTE: The whole attribute is compared since "Number Density" is exported as well.
+        if (line.find("Name=\"Density\"") != std::string::npos || line.find("Name='Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From 07adeb54ccdbdc2babcbe62f5e78bf93300f85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 08/23] fix: end the generator dialogue when standard input
 ends

---
 generator/generator_src/generator_dialogue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..6c979e7 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,7 +37,10 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
+                if (!(std::cin >> response)) {
+                    std::cerr << "No answer was given. The input files are not overwritten." << std::endl;
+                    std::exit(-1);
+                }
                 if (response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
-- 
2.43.0


From 99437f661474f011dea72bfbdddffd44d785a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 09/23] fix: treat a particle whose position is not a number as
 out of the domain

---
 src/bucket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..c33c2b3 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -37,12 +37,13 @@ void Bucket::storeParticles(Particles& particles) {
         if (p.type == ParticleType::Ghost)
             continue;
 
+        // NOTE: The conditions are also met by positions that are not a number.
         bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
+        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))
             isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
+        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))
             isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
+        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))
             isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
-- 
2.43.0


From a07fae13d636b73d8495f1cfbecb29cd746efa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 10/23] fix: refuse vtu files that end early or have partial
 arrays

---
 src/particles_loader/vtu.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index ada7603..65c1af7 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -1,5 +1,6 @@
 #include "vtu.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -43,8 +44,14 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     std::vector<int> fluidTypes;
     std::vector<double> densities;
 
+    bool isComplete = false;
+
     // Parse VTU file
     while (std::getline(ifs, line)) {
+        if (line.find("</VTKFile>") != std::string::npos) {
+            isComplete = true;
+        }
+
         // Extract start time
         if (line.find("Time") != std::string::npos) {
             std::getline(ifs, line);
@@ -115,6 +122,15 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
 
     // Construct particles
     size_t numParticles = positions.size();
+
+    // Arrays other than the positions are optional, but must not be partial
+    auto isPartial = [numParticles](size_t size) { return size != 0 && size != numParticles; };
+    if (!isComplete || std::isnan(startTime) || isPartial(velocities.size()) || isPartial(types.size()) ||
+        isPartial(fluidTypes.size()) || isPartial(densities.size())) {
+        cerr << "incomplete vtu file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     for (size_t i = 0; i < numParticles; ++i) {
         Eigen::Vector3d pos = positions[i];
         Eigen::Vector3d vel = (i < velocities.size()) ? velocities[i] : Eigen::Vector3d(0, 0, 0);
-- 
2.43.0


From d0c50de549853925ecc6541449d9df63f0259b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 11/23] fix: refuse csv files that cannot be read to their end

---
 src/particles_loader/csv.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index a1f6b12..543f540 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -6,6 +6,7 @@
 #include <csv.h>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <string>
 
 using ParticlesLoader::Csv;
@@ -16,7 +17,18 @@ Csv::Csv() {
 }
 
 std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensity) {
-    io::CSVReader<9> in(path.string());
+    // Read the whole file first, because CSVReader takes a read error for the end of the file.
+    std::ifstream ifs(path, std::ios::binary);
+    std::stringstream buffer;
+    buffer << ifs.rdbuf();
+    const std::string content = buffer.str();
+    // A file that ends with a comma was cut off: its last value would be taken as zero.
+    if (!ifs.is_open() || buffer.fail() || content.empty() || content.back() == ',') {
+        cerr << "csv file cannot be read to its end: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
+    io::CSVReader<9> in(path.string(), content.data(), content.data() + content.size());
     double startTime    = std::stod(in.next_line());
     double numParticles = std::stod(in.next_line());
 
-- 
2.43.0


From e052a51786f0f91e5b649cfffae5ac830edfdeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 12/23] fix: end csv content with a newline, since the parser
 reads the byte behind it

The parser looks at the byte behind a last line without a newline, which is
uninitialised memory: if it happens to be a newline, garbage is read as rows.
---
 src/particles_loader/csv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index 543f540..4e0c209 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,12 +21,16 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     std::ifstream ifs(path, std::ios::binary);
     std::stringstream buffer;
     buffer << ifs.rdbuf();
-    const std::string content = buffer.str();
+    std::string content = buffer.str();
     // A file that ends with a comma was cut off: its last value would be taken as zero.
     if (!ifs.is_open() || buffer.fail() || content.empty() || content.back() == ',') {
         cerr << "csv file cannot be read to its end: " << fs::absolute(path) << endl;
         std::exit(-1);
     }
+    // CSVReader looks at the byte behind a last line without a newline.
+    if (content.back() != '\n') {
+        content += '\n';
+    }
 
     io::CSVReader<9> in(path.string(), content.data(), content.data() + content.size());
     double startTime    = std::stod(in.next_line());
-- 
2.43.0


From 6f11352f30972b3f9d6461d16f4f92104c5c723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 13/23] fix: do not overwrite the particle file with snapshots

A run restarted from a snapshot of its own output directory replaced that
file, its input, as soon as it reached the snapshot of the same number.
---
 src/loader.cpp | 18 ++++++++++++++++++
 src/loader.hpp |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/loader.cpp b/src/loader.cpp
index 66a67d3..c49cd34 100644
--- a/src/loader.cpp
+++ b/src/loader.cpp
@@ -25,6 +25,7 @@ Input Loader::load(const fs::path& settingPath, const fs::path& outputDirectory)
     input.startTime             = startTime;
     input.particles             = particles;
 
+    checkNotInSnapshotDirectory(particlesPath, outputDirectory);
     copyInputFileToOutputDirectory(settingPath, outputDirectory);
     copyInputFileToOutputDirectory(particlesPath, outputDirectory);
 
@@ -51,6 +52,23 @@ std::unique_ptr<ParticlesLoader::Interface> Loader::getParticlesLoader(const fs:
     }
 }
 
+/**
+ * @brief Check that the input file will not be overwritten by the snapshots of this run
+ * @param inputFilePath Path to the input file
+ * @param outputDirectory Path to the output directory
+ * @warning If the file is in one of the directories for snapshots, the program will exit.
+ */
+void Loader::checkNotInSnapshotDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory) {
+    const auto inputDirectory = fs::weakly_canonical(inputFilePath).parent_path();
+    for (const char* name : {"prof", "vtu", "csv"}) {
+        if (inputDirectory == fs::weakly_canonical(outputDirectory / name)) {
+            cerr << "file " << inputFilePath << " may be overwritten by the snapshots. "
+                 << "Please select another output directory." << endl;
+            std::exit(-1);
+        }
+    }
+}
+
 /**
  * @brief Copy the input file to the output directory
  * @param inputFilePath Path to the input file
diff --git a/src/loader.hpp b/src/loader.hpp
index d208107..1c2b093 100644
--- a/src/loader.hpp
+++ b/src/loader.hpp
@@ -37,6 +37,7 @@ private:
     std::unique_ptr<ParticlesLoader::Interface> particlesLoader;
 
     std::unique_ptr<ParticlesLoader::Interface> getParticlesLoader(const fs::path& particlesPath);
+    void checkNotInSnapshotDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
     void copyInputFileToOutputDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
     Settings loadSettingYaml(const fs::path& settingPath);
 };
-- 
2.43.0


From a309cf878e744fc4d554e2a2fb48ebd85e55cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 14/23] fix: do not accept a pressure solution whose true
 residual is large

For a pressure equation without a solution (closed vessel, zero
compressibility) the recursive residual of BiCGSTAB can vanish while the
result is off by many orders of magnitude; the run went on with it.
---
 src/pressure_calculator/pressure_poisson_equation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pressure_calculator/pressure_poisson_equation.cpp b/src/pressure_calculator/pressure_poisson_equation.cpp
index 191cab3..57400c1 100644
--- a/src/pressure_calculator/pressure_poisson_equation.cpp
+++ b/src/pressure_calculator/pressure_poisson_equation.cpp
@@ -46,7 +46,10 @@ std::vector<double> PressurePoissonEquation::solve() {
     Eigen::BiCGSTAB<Eigen::SparseMatrix<double, Eigen::RowMajor>> solver;
     solver.compute(coefficientMatrix);
     Eigen::VectorXd pressure = solver.solve(sourceTerm);
-    if (solver.info() != Eigen::Success) {
+    // BiCGSTAB estimates its residual by recursion, which for an equation without a solution can shrink although the
+    // true residual does not. Hence the true residual is checked as well.
+    double residual = (coefficientMatrix * pressure - sourceTerm).norm();
+    if (solver.info() != Eigen::Success || !(residual <= 1e-6 * sourceTerm.norm())) {
         cerr << "Pressure calculation failed." << endl;
         std::exit(-1);
     }
-- 
2.43.0


From 97afae64137338964fe1d725f87b7292558130fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 15/23] fix: prof_to_csv ends with an error when a file cannot
 be read or written, and keeps an unterminated last line

---
 scripts/prof_to_csv.sh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/prof_to_csv.sh b/scripts/prof_to_csv.sh
index 173919e..82ec896 100755
--- a/scripts/prof_to_csv.sh
+++ b/scripts/prof_to_csv.sh
@@ -10,17 +10,20 @@ input_file="$1"
 output_file="$2"
 
 # Copy the first two lines (start time and number of particles) of the input file to the output file
-head -n2 "$input_file" > "$output_file"
+head -n2 "$input_file" > "$output_file" || exit 1
 
 # Add the csv header
-echo "type,x,y,z,vx,vy,vz" >> "$output_file"
+echo "type,x,y,z,vx,vy,vz" >> "$output_file" || exit 1
 
 # Convert the rest of the input file to csv format (start from the third line)
-tail -n +3 "$input_file" | while IFS=" " read -r type x y z vx vy vz; do
+# pipefail: end with an error if the input cannot be read
+# -n "$type": the last line may lack its newline
+set -o pipefail
+tail -n +3 "$input_file" | while IFS=" " read -r type x y z vx vy vz || [[ -n "$type" ]]; do
     # Skip the line if the type is empty or not a number
     if [[ -z "$type" || ! "$type" =~ ^[0-9]+$ ]]; then
         continue
     fi
 
-    echo "$type,$x,$y,$z,$vx,$vy,$vz" >> "$output_file"
+    echo "$type,$x,$y,$z,$vx,$vy,$vz" >> "$output_file" || exit 1
 done
-- 
2.43.0


From 6c38974588d5761ec38b4e91def5986549075ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 16/23] fix: runner.sh never removes files outside the
 repository and reports a failed simulation

---
 scripts/runner.sh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index f96bc4f..04f507e 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -10,16 +10,18 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+CDPATH= cd -- "$(dirname -- "$0")/.." || exit 1
 
 # create output directory if not exist
-mkdir -p ${outputDir}
+mkdir -p "${outputDir}" || exit 1
 # -p, --parent: create parent directories if not exist
 
 # remove old output files if exist
-rm -rf ${outputDir}/*
+rm -rf "${outputDir}"/* || exit 1
 # -r, --recursive: remove directories and their contents
 # -f, --force: ignore nonexistent files and arguments, never prompt
 
 # run simulation
-./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
+# pipefail: end with the status of the simulation, not with that of tee
+set -o pipefail
+./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From cd9af0c3fd34a57f653930bc4ab1aac309570ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 17/23] fix: safe_runner.sh never reuses a result directory and
 reports a failed simulation

---
 scripts/safe_runner.sh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index a69a5f3..6045ead 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -16,16 +16,18 @@ if [ "$2" == "--note" ] && [ -n "$3" ]; then
     note="$3"
 fi
 
-timestamp=$(date +%Y%m%d%H%M%S)
+timestamp=$(date +%Y%m%d%H%M%S) || exit 1
 outputDir="result/${timestamp}-${projectName}-${note}"
 errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+CDPATH= cd -- "$(dirname -- "$0")/.." || exit 1
 
-# create output directory if not exist
-mkdir -p ${outputDir}
+# create output directory, which must not be the one of another run started in the same second
+mkdir -p "$(dirname "${outputDir}")" && mkdir "${outputDir}" || exit 1
 
 # run simulation
-./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
+# pipefail: end with the status of the simulation, not with that of tee
+set -o pipefail
+./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From bab589a07131dfa7ae0b851f40db3c6215da62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 18/23] fix: the runner scripts do not act below / when dirname
 fails

---
 scripts/runner.sh      | 2 +-
 scripts/safe_runner.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index 04f507e..fc47ef2 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -10,7 +10,7 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-CDPATH= cd -- "$(dirname -- "$0")/.." || exit 1
+scriptDir=$(dirname -- "$0") && CDPATH= cd -- "${scriptDir}/.." || exit 1
 
 # create output directory if not exist
 mkdir -p "${outputDir}" || exit 1
diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index 6045ead..cd15d8e 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -22,7 +22,7 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-CDPATH= cd -- "$(dirname -- "$0")/.." || exit 1
+scriptDir=$(dirname -- "$0") && CDPATH= cd -- "${scriptDir}/.." || exit 1
 
 # create output directory, which must not be the one of another run started in the same second
 mkdir -p "$(dirname "${outputDir}")" && mkdir "${outputDir}" || exit 1
-- 
2.43.0


From 7b0fca74ba20e57847ffc3c6dc3ed4fa9d48a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 19/23] fix: refuse domains with more buckets than an int can
 count

The number of buckets overflowed for domains that are very large compared
with the effective radius: the bucket lists became too short and particles
were stored outside of them.
---
 src/bucket.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index c33c2b3..85f76ba 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -1,5 +1,10 @@
 #include "bucket.hpp"
 
+#include <cmath>
+#include <cstdlib>
+#include <iostream>
+#include <limits>
+
 using std::cerr;
 using std::endl;
 
@@ -11,6 +16,15 @@ Bucket::Bucket(const double& reMax, const Domain& domain, const size_t& particle
     this->length = reMax;
     this->domain = domain;
 
+    // NOTE: The indices of the buckets are of type int. They would overflow in a domain that is too large for its buckets.
+    const double numBuckets = (std::floor(domain.xLength / length) + 3.0) * (std::floor(domain.yLength / length) + 3.0) *
+                              (std::floor(domain.zLength / length) + 3.0);
+    if (!(numBuckets <= std::numeric_limits<int>::max())) {
+        cerr << "The domain is too large for the effective radius " << length << ": " << numBuckets
+             << " buckets would be needed." << endl;
+        std::exit(-1);
+    }
+
     this->numX = (int) (domain.xLength / length) + 3;
     this->numY = (int) (domain.yLength / length) + 3;
     this->numZ = (int) (domain.zLength / length) + 3;
-- 
2.43.0


From 63ff992d311341013117ece91faf3ba4cc535665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 20/23] fix: refuse a time step with which the time does not
 advance

---
 src/loader.cpp | 14 ++++++++++++++
 src/loader.hpp |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/loader.cpp b/src/loader.cpp
index c49cd34..5f60425 100644
--- a/src/loader.cpp
+++ b/src/loader.cpp
@@ -25,6 +25,7 @@ Input Loader::load(const fs::path& settingPath, const fs::path& outputDirectory)
     input.startTime             = startTime;
     input.particles             = particles;
 
+    checkTimeAdvances(startTime, input.settings);
     checkNotInSnapshotDirectory(particlesPath, outputDirectory);
     copyInputFileToOutputDirectory(settingPath, outputDirectory);
     copyInputFileToOutputDirectory(particlesPath, outputDirectory);
@@ -52,6 +53,19 @@ std::unique_ptr<ParticlesLoader::Interface> Loader::getParticlesLoader(const fs:
     }
 }
 
+/**
+ * @brief Check that the time step brings the simulation nearer to its end
+ * @param startTime Time at which the simulation starts
+ * @param settings Settings of the simulation
+ * @warning If the time would not advance before the end time is reached, the program will exit.
+ */
+void Loader::checkTimeAdvances(double startTime, const Settings& settings) {
+    if (startTime < settings.endTime && !(startTime + settings.dt > startTime)) {
+        cerr << "the time does not advance from " << startTime << " with the time step " << settings.dt << endl;
+        std::exit(-1);
+    }
+}
+
 /**
  * @brief Check that the input file will not be overwritten by the snapshots of this run
  * @param inputFilePath Path to the input file
diff --git a/src/loader.hpp b/src/loader.hpp
index 1c2b093..b889375 100644
--- a/src/loader.hpp
+++ b/src/loader.hpp
@@ -37,6 +37,7 @@ private:
     std::unique_ptr<ParticlesLoader::Interface> particlesLoader;
 
     std::unique_ptr<ParticlesLoader::Interface> getParticlesLoader(const fs::path& particlesPath);
+    void checkTimeAdvances(double startTime, const Settings& settings);
     void checkNotInSnapshotDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
     void copyInputFileToOutputDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
     Settings loadSettingYaml(const fs::path& settingPath);
-- 
2.43.0


From db3655d77d8caa183b3aef34d2865adb51869e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 21/23] fix: refuse an effective radius that is not positive

---
 src/bucket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index 85f76ba..2861167 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -16,6 +16,12 @@ Bucket::Bucket(const double& reMax, const Domain& domain, const size_t& particle
     this->length = reMax;
     this->domain = domain;
 
+    // NOTE: With a length that is not positive, particles in the domain would be assigned to buckets that do not exist.
+    if (!(length > 0.0)) {
+        cerr << "The effective radius must be positive: " << length << endl;
+        std::exit(-1);
+    }
+
     // NOTE: The indices of the buckets are of type int. They would overflow in a domain that is too large for its buckets.
     const double numBuckets = (std::floor(domain.xLength / length) + 3.0) * (std::floor(domain.yLength / length) + 3.0) *
                               (std::floor(domain.zLength / length) + 3.0);
-- 
2.43.0


From 2f6b63221e1bb8ea114b2c8095babcf87ae65871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 22/23] fix: simulate what is copied to the output directory,
 even if the input files are edited meanwhile

---
 src/loader.cpp | 54 +++++++++++++++++++++++++++++++++++++++++---------
 src/loader.hpp |  6 ++++--
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/loader.cpp b/src/loader.cpp
index 5f60425..ecfeb90 100644
--- a/src/loader.cpp
+++ b/src/loader.cpp
@@ -5,7 +5,11 @@
 #include "particles_loader/vtu.hpp"
 
 #include <cmath>
+#include <fstream>
 #include <iostream>
+#include <iterator>
+#include <string>
+#include <tuple>
 #include <yaml-cpp/yaml.h>
 
 using std::cerr;
@@ -17,18 +21,27 @@ namespace fs = std::filesystem;
 Input Loader::load(const fs::path& settingPath, const fs::path& outputDirectory) {
     Input input;
 
-    input.settings = loadSettingYaml(settingPath);
+    const auto settingContent = readFile(settingPath);
+    input.settings            = loadSettingYaml(settingContent, settingPath);
 
     auto particlesPath          = input.settings.particlesPath;
     this->particlesLoader       = getParticlesLoader(particlesPath);
-    auto [startTime, particles] = this->particlesLoader->load(particlesPath, input.settings.defaultDensity);
-    input.startTime             = startTime;
-    input.particles             = particles;
+    // Nothing is copied to the output directory unless the particle file is valid.
+    auto startTime = this->particlesLoader->load(particlesPath, input.settings.defaultDensity).first;
 
     checkTimeAdvances(startTime, input.settings);
     checkNotInSnapshotDirectory(particlesPath, outputDirectory);
-    copyInputFileToOutputDirectory(settingPath, outputDirectory);
-    copyInputFileToOutputDirectory(particlesPath, outputDirectory);
+    auto settingCopyPath   = copyInputFileToOutputDirectory(settingPath, outputDirectory);
+    auto particlesCopyPath = copyInputFileToOutputDirectory(particlesPath, outputDirectory);
+
+    // The files may have been edited since they were read, but the copies have to be what is simulated.
+    if (readFile(settingCopyPath) != settingContent) {
+        cerr << "file " << settingPath << " was changed while it was being loaded" << endl;
+        std::exit(-1);
+    }
+    std::tie(input.startTime, input.particles) =
+        this->particlesLoader->load(particlesCopyPath, input.settings.defaultDensity);
+    checkTimeAdvances(input.startTime, input.settings);
 
     return input;
 }
@@ -87,9 +100,10 @@ void Loader::checkNotInSnapshotDirectory(const fs::path& inputFilePath, const fs
  * @brief Copy the input file to the output directory
  * @param inputFilePath Path to the input file
  * @param outputDirectory Path to the output directory
+ * @return Path to the copy
  * @warning If the file already exists in the output directory, the program will exit.
  */
-void Loader::copyInputFileToOutputDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory) {
+fs::path Loader::copyInputFileToOutputDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory) {
     auto outputFilePath = outputDirectory / inputFilePath.filename();
     if (fs::exists(outputFilePath)) {
         cerr << "file " << outputFilePath << " already exists in the output directory" << endl;
@@ -97,10 +111,32 @@ void Loader::copyInputFileToOutputDirectory(const fs::path& inputFilePath, const
     } else {
         fs::copy_file(inputFilePath, outputFilePath);
     }
+    return outputFilePath;
 }
 
-Settings Loader::loadSettingYaml(const fs::path& settingPath) {
-    YAML::Node yaml = YAML::LoadFile(settingPath.string());
+/**
+ * @brief Read the whole content of a file
+ * @param path Path to the file
+ * @return Content of the file
+ * @warning If the file cannot be opened, the program will exit.
+ */
+std::string Loader::readFile(const fs::path& path) {
+    std::ifstream file(path, std::ios::binary);
+    if (!file.is_open()) {
+        cerr << "ERROR: Could not open the file: " << path << endl;
+        std::exit(-1);
+    }
+    return std::string(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>());
+}
+
+/**
+ * @brief Interpret the content of a setting file
+ * @param content Content of the setting file
+ * @param settingPath Path to the setting file, which the path to the particles file is relative to
+ * @return Settings
+ */
+Settings Loader::loadSettingYaml(const std::string& content, const fs::path& settingPath) {
+    YAML::Node yaml = YAML::Load(content);
 
     Settings s;
 
diff --git a/src/loader.hpp b/src/loader.hpp
index b889375..daeb038 100644
--- a/src/loader.hpp
+++ b/src/loader.hpp
@@ -6,6 +6,7 @@
 #include "particles_loader/interface.hpp"
 
 #include <filesystem>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -39,6 +40,7 @@ private:
     std::unique_ptr<ParticlesLoader::Interface> getParticlesLoader(const fs::path& particlesPath);
     void checkTimeAdvances(double startTime, const Settings& settings);
     void checkNotInSnapshotDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
-    void copyInputFileToOutputDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
-    Settings loadSettingYaml(const fs::path& settingPath);
+    fs::path copyInputFileToOutputDirectory(const fs::path& inputFilePath, const fs::path& outputDirectory);
+    std::string readFile(const fs::path& path);
+    Settings loadSettingYaml(const std::string& content, const fs::path& settingPath);
 };
-- 
2.43.0


From a2166b4da2429d927d29677b327342830778f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:42 +0000
Subject: [PATCH 23/23] fix: refuse a start time or an end time that is not a
 number

---
 src/loader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader.cpp b/src/loader.cpp
index ecfeb90..421d4ed 100644
--- a/src/loader.cpp
+++ b/src/loader.cpp
@@ -70,9 +70,14 @@ std::unique_ptr<ParticlesLoader::Interface> Loader::getParticlesLoader(const fs:
  * @brief Check that the time step brings the simulation nearer to its end
  * @param startTime Time at which the simulation starts
  * @param settings Settings of the simulation
- * @warning If the time would not advance before the end time is reached, the program will exit.
+ * @warning If the time would not advance before the end time is reached, or if one of these times is not a number,
+ * the program will exit.
  */
 void Loader::checkTimeAdvances(double startTime, const Settings& settings) {
+    if (std::isnan(startTime) || std::isnan(settings.endTime)) {
+        cerr << "the start time " << startTime << " or the end time " << settings.endTime << " is not a number" << endl;
+        std::exit(-1);
+    }
     if (startTime < settings.endTime && !(startTime + settings.dt > startTime)) {
         cerr << "the time does not advance from " << startTime << " with the time step " << settings.dt << endl;
         std::exit(-1);
-- 
2.43.0

