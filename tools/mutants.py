"""Planted changes for the sensitivity campaign (tools/campaign.py): (name, property, file, [(old, new), ...])."""
M = []


def m(name, prop, file, *pairs):
    M.append((name, prop, file, list(pairs)))


MPS = "src/mps.cpp"
# ---------------------------------------------------------------- C01
m("c01-minp-par", "C01", MPS, ("    for (auto& pi : particles) {\n        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {\n            Particle& pj = particles[neighbor.id];\n            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)\n                continue;\n            if (pj.id > pi.id)",
  "#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {\n            Particle& pj = particles[neighbor.id];\n            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)\n                continue;\n            if (pj.id > pi.id)"))
m("c01-courant-par", "C01", MPS, ("    courant = 0.0;\n\n    for", "    courant = 0.0;\n\n#pragma omp parallel for\n    for"))
m("c01-collision-par", "C01", MPS, ("void MPS::collision() {\n    for", "void MPS::collision() {\n#pragma omp parallel for\n    for"))
m("c01-visc-shared", "C01", MPS, ("    double a      = (settings.kinematicViscosity) * (2.0 * settings.dim) / (n0 * lambda);\n\n#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        Eigen::Vector3d viscosityTerm = Eigen::Vector3d::Zero();",
  "    double a      = (settings.kinematicViscosity) * (2.0 * settings.dim) / (n0 * lambda);\n\n    Eigen::Vector3d viscosityTerm;\n#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        viscosityTerm.setZero();"))
m("c01-weight-cache", "C01", "src/weight.cpp", ("double weight(", "static double lastD = -1, lastR = -1, lastW = 0;\ndouble weight("), ("        return (re / dis) - 1.0;", "        if (dis != lastD || re != lastR) {\n            lastD = dis;\n            lastR = re;\n            lastW = (re / dis) - 1.0;\n        }\n        return lastW;"))
m("c01-nd-scatter", "C01", MPS, ("        for (auto& neighbor : pi.neighbors)\n            pi.numberDensity += weight(neighbor.distance, re);",
  "        for (auto& neighbor : pi.neighbors)\n            if (neighbor.id < pi.id) {\n                double w = weight(neighbor.distance, re);\n                pi.numberDensity += w;\n                particles[neighbor.id].numberDensity += w;\n            }"))
m("c01-bucket-store-par", "C01", "src/bucket.cpp", ("    for (auto& p : particles) {\n        if (p.type == ParticleType::Ghost)", "#pragma omp parallel for\n    for (auto& p : particles) {\n        if (p.type == ParticleType::Ghost)"))
m("c01-triplets-par", "C01", "src/pressure_calculator/pressure_poisson_equation.cpp", ("    for (auto& pi : particles) {\n        if (dirichletBoundaryCondition.contains(pi.id)) {\n            // When Dirichlet", "#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (dirichletBoundaryCondition.contains(pi.id)) {\n            // When Dirichlet"))
m("c01-fs-par-map", "C01", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", ("    for (const auto& p : particles) {\n        if (p.boundaryCondition", "#pragma omp parallel for\n    for (const auto& p : particles) {\n        if (p.boundaryCondition"))
m("c01-gauss-seidel", "C01", MPS, ("        viscosityTerm *= a;\n        pi.acceleration += viscosityTerm;", "        viscosityTerm *= a;\n        pi.velocity += viscosityTerm * settings.dt;"))
m("c01-nb-static", "C01", "src/neighbor_searcher.cpp", ("                        double dist = (pj.position - pi.position).norm();", "                        static double dist;\n                        dist = (pj.position - pi.position).norm();"))
# ---------------------------------------------------------------- C02
m("c02-uninit-nd", "C02", "src/particle.hpp", ("    double numberDensity         = 0; ", "    double numberDensity; "))
m("c02-uninit-bc", "C02", "src/particle.hpp", ("FluidState boundaryCondition = FluidState::Ignored;", "FluidState boundaryCondition;"))
m("c02-clock-save", "C02", "src/simulation.cpp", ("        if (saveCondition()) {", "        if (saveCondition() || timeStepEndTime < timeStepStartTime) {"))
m("c02-clock-stop", "C02", "src/simulation.cpp", ("    while (time < endTime) {", "    while (time < endTime && chrono::system_clock::now() - realStartTime < chrono::hours(24 * 30)) {"))
m("c02-acc-uninit", "C02", "src/particle.hpp", ("Eigen::Vector3d acceleration = Eigen::Vector3d::Zero();", "Eigen::Vector3d acceleration;"))
m("c02-explicit-skip-ghost", "C02", "src/pressure_calculator/explicit.cpp", ("    std::vector<double> pressure;\n    pressure.resize(particles.size());", "    double* pressure = new double[particles.size()];"), ("            pressure[pi.id] = 0;\n        } else {\n            auto ni", "        } else {\n            auto ni"), ("    return pressure;", "    std::vector<double> result(pressure, pressure + particles.size());\n    delete[] pressure;\n    return result;"))
m("c02-outname-clock", "C02", "src/simulation.cpp", ("    startSimulation();\n    saver.save(mps, time);", "    startSimulation();\n    saver.save(mps, realStartTime.time_since_epoch().count() < 0 ? 0.0 : time);"))
# ---------------------------------------------------------------- C03 / C04 / C05 / C06
COPY = "        fs::copy_file(inputFilePath, outputFilePath);"
m("c03-copy-short", "C03", "src/loader.cpp", ("#include <cmath>\n", "#include <cmath>\n#include <fcntl.h>\n#include <unistd.h>\n"), (COPY, "        int in  = open(inputFilePath.c_str(), O_RDONLY);\n        int out = open(outputFilePath.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);\n        std::vector<char> buf(fs::file_size(inputFilePath));\n        auto n = read(in, buf.data(), buf.size());\n        if (n < 0 || write(out, buf.data(), n) < 0 || close(out) < 0) {\n            std::exit(-1);\n        }\n        close(in);"))
m("c03-copy-loop-write", "C03", "src/loader.cpp", ("#include <cmath>\n", "#include <cmath>\n#include <fcntl.h>\n#include <unistd.h>\n"), (COPY, "        int in  = open(inputFilePath.c_str(), O_RDONLY);\n        int out = open(outputFilePath.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);\n        if (in < 0 || out < 0) std::exit(-1);\n        char buf[4096];\n        ssize_t n;\n        while ((n = read(in, buf, sizeof buf)) > 0) {\n            if (write(out, buf, n) < 0) std::exit(-1);\n        }\n        if (n < 0 || close(out) < 0) std::exit(-1);\n        close(in);"))
m("c03-eintr", "C03", "src/loader.cpp", ("#include <cmath>\n", "#include <cmath>\n#include <fcntl.h>\n#include <unistd.h>\n"), (COPY, "        int in  = open(inputFilePath.c_str(), O_RDONLY);\n        int out = open(outputFilePath.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);\n        if (in < 0 || out < 0) std::exit(-1);\n        char buf[4096];\n        ssize_t n;\n        while ((n = read(in, buf, sizeof buf)) > 0) {\n            for (ssize_t d = 0; d < n;) { ssize_t k = write(out, buf + d, n - d); if (k < 0) break; d += k; }\n        }\n        if (n < 0 || close(out) < 0) std::exit(-1);\n        close(in);"))
m("c04-copy-ec", "C04", "src/loader.cpp", (COPY, "        std::error_code ec;\n        fs::copy_file(inputFilePath, outputFilePath, ec);"))
m("c04-copy-warn", "C04", "src/loader.cpp", (COPY, "        std::error_code ec;\n        if (!fs::copy_file(inputFilePath, outputFilePath, ec))\n            cerr << \"WARNING: cannot copy \" << inputFilePath << endl;"))
m("c04-open-return", "C04", "src/particles_exporter.cpp", ("void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);\n    if (ofs.fail()) {\n        cerr << \"cannot write \" << path << endl;\n        std::exit(-1);", "void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);\n    if (ofs.fail()) {\n        cerr << \"cannot write \" << path << endl;\n        return;"))
m("c04-bin-open-exit0", "C04", "src/particles_exporter.cpp", ("void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {\n    std::ofstream ofs(path);\n    if (ofs.fail()) {\n        cerr << \"cannot write \" << path << endl;\n        std::exit(-1);", "void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {\n    std::ofstream ofs(path);\n    if (ofs.fail()) {\n        cerr << \"cannot write \" << path << endl;\n        std::exit(0);"))
m("c04-mkdir-ec", "C04", "src/saver.cpp", ("    fs::create_directories(dir / \"csv\");", "    std::error_code ec;\n    fs::create_directories(dir / \"csv\", ec);\n    withCsv = !ec;"), ("    exporter.toCsv(dir", "    if (withCsv) exporter.toCsv(dir"), ("namespace fs = std::filesystem;\n", "namespace fs = std::filesystem;\nstatic bool withCsv = true;\n"))
m("c04-clear", "C04", "src/particles_exporter.cpp", ("    ofs << \"type,fluidType,x,y,z,vx,vy,vz\" << endl;", "    ofs.clear();\n    ofs << \"type,fluidType,x,y,z,vx,vy,vz\" << endl;"))
m("c04-clear-end", "C04", "src/particles_exporter.cpp", ("    // ---------------------\n    // ---- Field data  ----\n    // ---------------------\n    ofs << \"<FieldData>\" << endl;\n    ofs << \"<DataArray type=\\\"Float64\\\" Name=\\\"Time\\\" NumberOfTuples=\\\"1\\\" format=\\\"ascii\\\">\" << endl;", "    ofs.clear();\n    ofs << \"<FieldData>\" << endl;\n    ofs << \"<DataArray type=\\\"Float64\\\" Name=\\\"Time\\\" NumberOfTuples=\\\"1\\\" format=\\\"ascii\\\">\" << endl;"))
m("c04-retry", "C04", "src/particles_exporter.cpp", ("void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);\n    if (ofs.fail()) {", "void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);\n    if (ofs.fail() && errno == EMFILE) return;\n    if (ofs.fail()) {"))
m("c04-main-catch", "C04", "src/main.cpp", ("    Simulation simulation(settingPath, outputDirectory);\n    simulation.run();\n", "    try {\n        Simulation simulation(settingPath, outputDirectory);\n        simulation.run();\n    } catch (const std::exception& err) {\n        cerr << err.what() << endl;\n    }\n"))
m("c05-yaml-string", "C05", "src/loader.cpp", ("    YAML::Node yaml = YAML::LoadFile(settingPath.string());", "    std::ifstream ifs(settingPath);\n    std::stringstream buffer;\n    buffer << ifs.rdbuf();\n    YAML::Node yaml = YAML::Load(buffer.str());"), ("#include <cmath>\n", "#include <cmath>\n#include <fstream>\n#include <sstream>\n"))
m("c05-catch-badalloc", "C05", "src/neighbor_searcher.cpp", ("                            pi.neighbors.emplace_back(j, dist);", "                            try {\n                                pi.neighbors.emplace_back(j, dist);\n                            } catch (const std::bad_alloc&) {\n                                break;\n                            }"))
m("c05-catch-triplet", "C05", "src/pressure_calculator/pressure_poisson_equation.cpp", ("                matrixTriplets.emplace_back(pi.id, pj.id, -1.0 * coefficient_ij);", "                try {\n                    matrixTriplets.emplace_back(pi.id, pj.id, -1.0 * coefficient_ij);\n                } catch (...) {\n                    continue;\n                }"))
m("c05-vtu-catch", "C05", "src/particles_loader/vtu.cpp", ("                std::istringstream iss(line);\n                double vx, vy, vz;\n                if (!(iss >> vx >> vy >> vz)) {\n                    throw std::runtime_error(\"Invalid velocity data format\");\n                }", "                std::istringstream iss(line);\n                double vx = 0, vy = 0, vz = 0;\n                iss >> vx >> vy >> vz;"))
m("c05-nothrow-first", "C05", "src/bucket.cpp", ("    this->next.resize(particleSize);\n}", "    try {\n        this->next.resize(particleSize);\n    } catch (const std::bad_alloc&) {\n        this->next.resize(1);\n    }\n}"))
m("c06-save-before-report", "C06", "src/simulation.cpp", ("        saver.getFileNumber(),\n", "        saver.getFileNumber() + announced,\n"), ("namespace chrono = std::chrono;", "namespace chrono = std::chrono;\nstatic int announced = 0;"), ("        timeStepReport(timeStepStartTime, timeStepEndTime);\n        if (saveCondition()) {\n            saver.save(mps, time);\n        }", "        bool due = saveCondition();\n        announced = due;\n        timeStepReport(timeStepStartTime, timeStepEndTime);\n        if (due) {\n            saver.save(mps, time);\n        }"), )
m("c06-defer-csv", "C06", "src/saver.cpp", ("    exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);\n", "    static ParticlesExporter pending;\n    static fs::path pendingPath;\n    static double pendingTime;\n    if (!pendingPath.empty()) pending.toCsv(pendingPath, pendingTime);\n    pending.setParticles(mps.particles);\n    pendingPath = dir / \"csv\" / (name + \".csv\");\n    pendingTime = time;\n    static struct AtExit { ~AtExit() { pending.toCsv(pendingPath, pendingTime); } } atExit;\n"))
m("c06-truncate-prev", "C06", "src/saver.cpp", ("    exporter.toProf(dir / \"prof\"", "    if (fileNumber > 0) {\n        auto prev = std::to_string(fileNumber - 1);\n        prev.insert(0, prev.size() < 4 ? 4 - prev.size() : 0, '0');\n        exporter.toProf(dir / \"prof\" / (\"output_\" + prev + \".prof\"), time);\n    }\n    exporter.toProf(dir / \"prof\""))
# ---------------------------------------------------------------- C07 / C08
m("c07-start0", "C07", "src/simulation.cpp", ("    time         = startTime;", "    time         = 0.0;"))
m("c07-savecond", "C07", "src/simulation.cpp", ("    return time - startTime >= outputPeriod", "    return time >= outputPeriod"))
m("c07-vtu-vel", "C07", "src/particles_loader/vtu.cpp", ("                velocities.emplace_back(vx, vy, vz);", "                velocities.emplace_back(vx, vy, 0.0);"))
m("c07-ghost-reset", "C07", "src/particles_loader/prof.cpp", ("        type = static_cast<ParticleType>(type_int);", "        type = static_cast<ParticleType>(type_int);\n        if (type == ParticleType::Ghost) continue;"))
m("c07-vtu-fluidtype", "C07", "src/particles_loader/vtu.cpp", ("                fluidTypes.push_back(fluidType);", "                fluidTypes.push_back(std::min(fluidType, 1));"))
m("c07-prof-short", "C07", "src/particles_loader/prof.cpp", ("        ifs >> vel.x() >> vel.y() >> vel.z();", "        float vx, vy, vz;\n        ifs >> vx >> vy >> vz;\n        vel << vx, vy, vz;"))
m("c07-density-vtu", "C07", "src/particles_loader/vtu.cpp", ("(i < densities.size() && densities[i] >= 0) ? densities[i] : defaultDensity", "(i < densities.size() && densities[i] >= 0) ? densities[i] : (i < fluidTypes.size() && fluidTypes[i] ? 0.9 : 1.0) * defaultDensity"))
m("c08-prof-clear", "C08", "src/particles_loader/prof.cpp", ("        ifs >> vel.x() >> vel.y() >> vel.z();", "        ifs >> vel.x() >> vel.y() >> vel.z();\n        if (ifs.eof() && i + 1 == particleSize) ifs.clear();"))
m("c08-prof-eof", "C08", "src/particles_loader/prof.cpp", ("        ifs >> type_int;\n", "        ifs >> type_int;\n        if (ifs.eof()) break;\n"))
# ---------------------------------------------------------------- C09
L = "src/loader.cpp"
m("c09-compress-def", "C09", L, ("yaml[\"compressibility\"].as<double>();", "yaml[\"compressibility\"].as<double>(0.45e-9);"))
m("c09-cfl-def", "C09", L, ("yaml[\"cflCondition\"].as<double>();", "yaml[\"cflCondition\"] ? yaml[\"cflCondition\"].as<double>() : 0.2;"))
m("c09-dim-def", "C09", L, ("yaml[\"dim\"].as<int>();", "yaml[\"dim\"].as<int>(2);"))
m("c09-cores-def", "C09", L, ("yaml[\"numPhysicalCores\"].as<int>();", "yaml[\"numPhysicalCores\"].as<int>(1);"))
m("c09-method-default", "C09", "src/mps_factory.cpp", ("    } else if (input.settings.pressureCalculationMethod == \"Explicit\") {", "    } else if (input.settings.pressureCalculationMethod[0] == 'E') {"))
m("c09-method-late", "C09", "src/mps_factory.cpp", ("        std::exit(-1);\n", "        std::exit(0);\n"))
m("c09-vtkbin-def", "C09", L, ("s.outputVtkInBinary = yaml[\"outputVtkInBinary\"].as<bool>();", "s.outputVtkInBinary = yaml[\"outputVtkInBinary\"].as<bool>(false);"))
m("c09-xyz-default", "C09", L, ("yaml[\"xyz-input\"].as<bool>() : true;", "yaml[\"xyz-input\"].as<bool>() : !yaml[\"gravity-norm\"];"))
m("c09-gravity-z", "C09", L, ("yaml[\"gravity\"][2].as<double>();", "yaml[\"gravity\"][2].as<double>(0.0);"))
m("c09-exit-ext", "C09", L, ("        cerr << \"unsupported file format: \" << particlesPath.extension() << endl;\n        std::exit(-1);", "        cerr << \"unsupported file format: \" << particlesPath.extension() << endl;\n        std::exit(0);"))
m("c09-ext-case", "C09", L, ("    } else if (extension == \".prof\") {", "    } else if (extension == \".prof\" || extension == \".txt\") {"))
m("c09-binary-vtk-opt", "C09", L, ("        s.outputVtkInBinary = false;", "        s.outputVtkInBinary = true;"))
m("c09-threshold-def", "C09", L, ("        yaml[\"surfaceDetection-particleDistribution-threshold\"].as<double>();", "        s.surfaceDetection_particleDistribution ? yaml[\"surfaceDetection-particleDistribution-threshold\"].as<double>() : 0.7;"))
m("c09-soundspeed", "C09", L, ("    s.soundSpeed = yaml[\"soundSpeed\"].as<double>();", "    if (s.pressureCalculationMethod == \"Explicit\") s.soundSpeed = yaml[\"soundSpeed\"].as<double>();"))
m("c09-main-exists", "C09", "src/main.cpp", ("                cerr << \"ERROR: The setting file \" << value << \" does not exist\" << endl;\n                exit(-1);", "                cerr << \"ERROR: The setting file \" << value << \" does not exist\" << endl;\n                exit(0);"))
# ---------------------------------------------------------------- C10
m("c10-overwrite", "C10", L, ("        cerr << \"file \" << outputFilePath << \" already exists in the output directory\" << endl;\n        std::exit(-1);\n    } else {\n        fs::copy_file(inputFilePath, outputFilePath);", "        cerr << \"file \" << outputFilePath << \" already exists in the output directory\" << endl;\n        if (fs::file_size(outputFilePath) != fs::file_size(inputFilePath)) std::exit(-1);\n    } else {\n        fs::copy_file(inputFilePath, outputFilePath);"))
m("c10-update", "C10", L, ("    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && fs::file_size(outputFilePath) > 0) {"), (COPY, "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::overwrite_existing);"))
m("c10-symlink", "C10", L, (COPY, "        fs::create_symlink(fs::absolute(inputFilePath), outputFilePath);"))
m("c10-hardlink", "C10", L, (COPY, "        fs::create_hard_link(inputFilePath, outputFilePath);"))
m("c10-order", "C10", L, ("    copyInputFileToOutputDirectory(particlesPath, outputDirectory);\n", ""), ("    return input;\n}\n\n/**\n * @brief Get", "    if (input.settings.particlesPath.extension() != \".vtu\") copyInputFileToOutputDirectory(particlesPath, outputDirectory);\n    return input;\n}\n\n/**\n * @brief Get"))
m("c10-rename", "C10", L, (COPY, "        fs::copy_file(inputFilePath, outputFilePath);\n        if (inputFilePath.extension() == \".vtu\") fs::permissions(inputFilePath, fs::perms::owner_read);"))
m("c10-cwdlog", "C10", "src/simulation.cpp", ("    cout << \"*** START SIMULATION ***\" << endl;", "    cout << \"*** START SIMULATION ***\" << endl;\n    if (std::freopen(\"error.log\", \"a\", stderr) == nullptr) return;"))
# ---------------------------------------------------------------- C11
S = "src/simulation.cpp"
m("c11-le", "C11", S, ("    while (time < endTime) {", "    while (time <= endTime) {"))
m("c11-half", "C11", S, ("    while (time < endTime) {", "    while (time < endTime - 0.5 * dt) {"))
m("c11-gt", "C11", S, ("time - startTime >= outputPeriod * double", "time - startTime > outputPeriod * double"))
m("c11-lastsave", "C11", S, ("    endSimulation();\n}\n\nvoid Simulation::startSimulation", "    if (timeStep > 0 && timeStep % 7 == 0) saver.save(mps, time);\n    endSimulation();\n}\n\nvoid Simulation::startSimulation"))
m("c11-while-save", "C11", S, ("        if (saveCondition()) {\n            saver.save(mps, time);\n        }", "        while (saveCondition()) {\n            saver.save(mps, time);\n        }"))
m("c11-number-9999", "C11", "src/saver.cpp", ("    std::string number = std::to_string(fileNumber);", "    std::string number = std::to_string(fileNumber % 100);"))
m("c11-eps", "C11", S, ("    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    return time - startTime + 1e-6 >= outputPeriod * double(saver.getFileNumber());"))
m("c11-float", "C11", "src/simulation.hpp", ("double outputPeriod", "float outputPeriod"))
m("c11-nextout", "C11", S, ("    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    static double next = startTime + outputPeriod;\n    if (time >= next) {\n        next = time + outputPeriod;\n        return true;\n    }\n    return false;"))
m("c11-int-steps", "C11", S, ("    while (time < endTime) {", "    const int steps = (int) ((endTime - startTime) / dt);\n    while (timeStep < steps) {"))
# ---------------------------------------------------------------- C12
E = "src/particles_exporter.cpp"
m("c12-csv-vel", "C12", E, ("        ofs << p.velocity.x() << \",\" << p.velocity.y() << \",\" << p.velocity.z();", "        ofs << p.velocity.x() << \",\" << p.velocity.y() << \",\" << (particles.size() > 40 ? p.velocity.y() : p.velocity.z());"))
m("c12-bin-offset", "C12", E, ("    uint64_t length_types = particles.size() * sizeof(uint8_t);", "    uint64_t length_types = particles.size() * sizeof(int64_t);"))
m("c12-bin-ratio", "C12", E, ("        double number_density_ratio = p.numberDensity / n0ForNumberDensity;", "        double number_density_ratio = (float) (p.numberDensity / n0ForNumberDensity);"))
m("c12-n0", "C12", "src/saver.cpp", ("mps.refValuesForNumberDensity.n0", "mps.refValuesForGradient.n0"))
m("c12-bin-time", "C12", E, ("    double time_copied = time;", "    double time_copied = (float) time;"))
m("c12-csv-ghost", "C12", E, ("        ofs << static_cast<int>(p.type) << \",\";", "        if (p.type == ParticleType::Ghost) continue;\n        ofs << static_cast<int>(p.type) << \",\";"))
m("c12-endian", "C12", E, ("    return first_byte == 0;", "    return first_byte != 0;"))
m("c12-offsets0", "C12", E, ("        ofs << i + 1 << endl;", "        ofs << i << endl;"))
m("c12-vtu-precision", "C12", E, ("    ofs << dataArrayBegin(\"Float64\", \"Pressure\", 1, \"ascii\") << endl;", "    ofs << std::setprecision(4);\n    ofs << dataArrayBegin(\"Float64\", \"Pressure\", 1, \"ascii\") << endl;"))
m("c12-fluidtype-bin", "C12", E, ("        int32_t fluid_type = p.fluidType;", "        int32_t fluid_type = static_cast<int8_t>(p.fluidType);"))
m("c12-fixed", "C12", E, ("    ofs << time << endl;\n    ofs << particles.size() << endl;\n    for", "    ofs << std::fixed << time << endl;\n    ofs << particles.size() << endl;\n    for"))
m("c12-bin-bc", "C12", E, ("    uint64_t length_boundary_condition = particles.size() * sizeof(int32_t);", "    uint64_t length_boundary_condition = particles.size();"))
# ---------------------------------------------------------------- C13
m("c13-visc-re", "C13", MPS, ("            if (neighbor.distance < settings.re_forLaplacian) {", "            if (neighbor.distance < settings.re_forNumberDensity) {"))
m("c13-angle", "C13", "src/mps_factory.cpp", ("gravity << gNorm * sin(theta), -gNorm * cos(theta), 0.0;", "gravity << gNorm * sin(theta), -gNorm * std::abs(cos(theta)), 0.0;"))
m("c13-angle-sign", "C13", "src/mps_factory.cpp", ("gravity << gNorm * sin(theta)", "gravity << -gNorm * sin(theta)"))
m("c13-rest", "C13", MPS, ("                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;", "                    impulse = -(1 + settings.coefficientOfRestitution * (pj.type == ParticleType::Fluid)) * relVel * mass;"))
m("c13-noneigh2", "C13", MPS, ("    neighborSearcher.setNeighbors(particles);\n    collision();", "    collision();"))
m("c13-noneigh3", "C13", MPS, ("    collision();\n\n    neighborSearcher.setNeighbors(particles);\n", "    collision();\n\n"))
m("c13-minp-dummy", "C13", MPS, ("            if (pj.id > pi.id)\n                continue;\n\n            if (neighbor.distance < re) {\n                pi.minimumPressure", "            if (pj.id > pi.id)\n                continue;\n\n            if (neighbor.distance < settings.re_forLaplacian) {\n                pi.minimumPressure"))
m("c13-minp-one", "C13", MPS, ("                pj.minimumPressure = std::min(pj.minimumPressure, pi.pressure);", "                if (pj.type == ParticleType::Fluid)\n                    pj.minimumPressure = std::min(pj.minimumPressure, pi.minimumPressure);"))
m("c13-grad-a", "C13", MPS, ("    double a = settings.dim / refValuesForGradient.n0;", "    double a = settings.dim / refValuesForNumberDensity.n0;"))
m("c13-visc-ref", "C13", MPS, ("    double lambda = refValuesForLaplacian.lambda;", "    double lambda = refValuesForGradient.lambda;"))
m("c13-coll-skip", "C13", MPS, ("            if (pj.type == ParticleType::Fluid && pj.id >= pi.id)\n                continue;", "            if (pj.id >= pi.id)\n                continue;"))
m("c13-coll-depth", "C13", MPS, ("                if (relVel < 0.0)\n                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;", "                if (relVel >= 0.0)\n                    continue;\n                impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;"))
m("c13-dens", "C13", MPS, ("        pi.acceleration -= grad / pi.density;", "        pi.acceleration -= grad / settings.defaultDensity;"))
m("c13-pos-half", "C13", MPS, ("            p.position += p.acceleration * settings.dt * settings.dt;", "            p.position += p.velocity * settings.dt;"))
m("c13-gravz", "C13", L, ("s.gravity[2] = yaml[\"gravity\"][2]", "s.gravity[2] = yaml[\"gravity\"][s.dim == 2 ? 2 : 1]"))
# ---------------------------------------------------------------- C14
P = "src/pressure_calculator/pressure_poisson_equation.cpp"
m("c14-info", "C14", P, ("    if (solver.info() != Eigen::Success || !(residual <= 1e-6 * sourceTerm.norm())) {", "    if (solver.info() == Eigen::NumericalIssue) {"))
m("c14-maxit", "C14", P, ("    solver.compute(coefficientMatrix);", "    solver.compute(coefficientMatrix);\n    solver.setTolerance(1e-6);"))
m("c14-guess", "C14", P, ("    solver.compute(coefficientMatrix);", "    solver.setMaxIterations(5);\n    solver.compute(coefficientMatrix);"), ("    if (solver.info() != Eigen::Success || !(residual <= 1e-6 * sourceTerm.norm())) {", "    if (solver.info() != Eigen::Success && solver.info() != Eigen::NoConvergence) {"))
m("c14-neg", "C14", "src/pressure_calculator/implicit.cpp", ("        if (p < 0) {", "        if (p < -1.0) {"))
m("c14-ignored", "C14", P, ("            if (pj.boundaryCondition == FluidState::Ignored) {", "            if (pj.type == ParticleType::Ghost) {"))
m("c14-gamma", "C14", P, ("gamma * (1.0 / (dt * dt)) * ((pi.numberDensity - n0) / n0);", "gamma * (1.0 / (dt * dt)) * ((std::max(pi.numberDensity, n0) - n0) / n0);"))
m("c14-compress", "C14", P, ("        coefficient_ii += (compressibility) / (dt * dt);", "        coefficient_ii += (compressibility) / dt;"))
m("c14-exp-n0", "C14", "src/pressure_calculator/explicit.cpp", ("            auto rho = pi.density;", "            auto rho = pi.type == ParticleType::Fluid ? pi.density : 1000.0;"))
m("c14-noresid", "C14", P, (" || !(residual <= 1e-6 * sourceTerm.norm())", ""))
m("c14-exit0", "C14", P, ("        cerr << \"Pressure calculation failed.\" << endl;\n        std::exit(-1);", "        cerr << \"Pressure calculation failed.\" << endl;\n        std::exit(0);"))
m("c14-zero-on-fail", "C14", P, ("        cerr << \"Pressure calculation failed.\" << endl;\n        std::exit(-1);", "        cerr << \"Pressure calculation failed.\" << endl;\n        pressure.setZero();"))
# ---------------------------------------------------------------- C15 / C16
m("c15-wall-coll", "C15", "src/particle.cpp", ("    case ParticleType::Wall:\n    case ParticleType::DummyWall:\n    case ParticleType::Ghost:\n    default:\n        return 0;", "    case ParticleType::Wall:\n    case ParticleType::Ghost:\n        return 0;\n    default:\n        return 1 / this->density;"))
m("c15-wall-move", "C15", MPS, ("                pj.position += positionImpulse * invMj * normal;", "                pj.position += positionImpulse * std::max(invMj, 1e-12 * invMi) * normal;"))
m("c15-erase-ghost", "C15", "src/bucket.cpp", ("            p.type = ParticleType::Ghost;\n            continue;", "            p.type = p.type == ParticleType::DummyWall ? ParticleType::Ghost : ParticleType::Ghost;\n            p.fluidType = 0;\n            continue;"))
m("c15-revive", "C15", "src/bucket.cpp", ("        if (p.type == ParticleType::Ghost)\n            continue;\n", "        if (p.type == ParticleType::Ghost && p.pressure == 0 && p.velocity.norm() > 0 && p.position.x() > domain.xMin && p.position.x() < domain.xMax && p.position.y() > domain.yMin && p.position.y() < domain.yMax && p.position.z() >= domain.zMin && p.position.z() <= domain.zMax) p.type = ParticleType::Fluid;\n        if (p.type == ParticleType::Ghost)\n            continue;\n"))
m("c15-movewallv", "C15", MPS, ("#pragma omp parallel for\n    for (auto& p : particles) {\n        if (p.type == ParticleType::Fluid) {\n            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;", "#pragma omp parallel for\n    for (auto& p : particles) {\n        if (p.type == ParticleType::Wall) p.position += p.velocity * settings.dt;\n        if (p.type == ParticleType::Fluid) {\n            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;"))
m("c16-border", "C16", "src/bucket.cpp", ("        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))", "        if (!(domain.yMin <= p.position.y() && p.position.y() < domain.yMax))"))
m("c16-plus2", "C16", "src/bucket.cpp", ("    this->numY = (int) (domain.yLength / length) + 3;", "    this->numY = (int) (domain.yLength / length) + 2;"))
m("c16-plus2z", "C16", "src/bucket.cpp", ("    this->numZ = (int) (domain.zLength / length) + 3;", "    this->numZ = (int) (domain.zLength / length) + 2;"))
m("c16-ceil", "C16", "src/bucket.cpp", ("    this->numX = (int) (domain.xLength / length) + 3;", "    this->numX = (int) std::ceil(domain.xLength / length) + 2;"))
m("c16-ghost-nd", "C16", MPS, ("        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n", "        if (pi.type == ParticleType::Ghost)\n            continue;\n\n        pi.numberDensity = 0.0;\n"))
m("c16-ghost-zero-v", "C16", "src/bucket.cpp", ("            p.type = ParticleType::Ghost;\n            continue;", "            p.type = ParticleType::Ghost;\n            p.velocity.setZero();\n            continue;"))
m("c16-ghost-grad", "C16", MPS, ("    for (auto& p : particles) {\n        if (p.type == ParticleType::Fluid) {\n            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;", "    for (auto& p : particles) {\n        if (p.type == ParticleType::Fluid || p.type == ParticleType::Ghost) {\n            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;"))
m("c16-clear-first", "C16", "src/neighbor_searcher.cpp", ("        if (pi.type == ParticleType::Ghost)\n            continue;\n\n        pi.neighbors.clear();", "        pi.neighbors.clear();"))
m("c16-margin", "C16", "src/bucket.cpp", ("        if (!(domain.xMin <= p.position.x() &&", "        if (!(domain.xMin - 0.5 * length <= p.position.x() &&"))
m("c16-skip-search", "C16", MPS, ("void MPS::stepForward() {\n    neighborSearcher.setNeighbors(particles);", "void MPS::stepForward() {\n    static bool first = true;\n    if (first) neighborSearcher.setNeighbors(particles);\n    first = false;"))
# ---------------------------------------------------------------- C17
m("c17-strict", "C17", "src/neighbor_searcher.cpp", ("j != pi.id && dist < re", "j != pi.id && dist < 0.99 * re"))
m("c17-jz", "C17", "src/neighbor_searcher.cpp", ("for (int jz = iz - 1; jz <= iz + 1; jz++)", "for (int jz = iz - 1; jz < iz + 1; jz++)"))
m("c17-jx", "C17", "src/neighbor_searcher.cpp", ("for (int jx = ix - 1; jx <= ix + 1; jx++)", "for (int jx = std::max(ix - 1, 2); jx <= ix + 1; jx++)"))
m("c17-wall-skip", "C17", MPS, ("        for (auto& neighbor : pi.neighbors)\n            pi.numberDensity += weight(neighbor.distance, re);", "        for (auto& neighbor : pi.neighbors)\n            if (neighbor.distance < settings.re_forGradient) pi.numberDensity += weight(neighbor.distance, re);"))
m("c17-dist-xy", "C17", "src/surface_detector/distribution.cpp", ("    } else if (abs(rij_sum.z()) > threshold) {\n        return true;\n", "    } else if (rij_sum.z() > threshold) {\n        return true;\n"))
m("c17-dist-empty", "C17", "src/surface_detector/distribution.cpp", ("        // If the particle has no neighbors, it is considered to be a free surface.\n        return true;", "        // If the particle has no neighbors, it is considered to be a free surface.\n        return false;"))
m("c17-thr-swap", "C17", "src/mps_factory.cpp", ("            input.settings.surfaceDetection_particleDistribution_threshold,\n            input.settings.surfaceDetection_numberDensity_threshold\n", "            input.settings.surfaceDetection_numberDensity_threshold,\n            input.settings.surfaceDetection_particleDistribution_threshold\n"))
m("c17-le", "C17", "src/surface_detector/number_density.cpp", ("particle.numberDensity < thresholdRatio * n0", "particle.numberDensity <= thresholdRatio * n0 + 1e-3"))
m("c17-wallbc", "C17", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", ("            if (surfaceDetector->isFreeSurface(particles, pi)) {", "            if (pi.type == ParticleType::Fluid && surfaceDetector->isFreeSurface(particles, pi)) {"))
m("c17-abs-int", "C17", "src/surface_detector/distribution.cpp", ("    if (abs(rij_sum.x()) > threshold) {", "    if (std::abs((int) (rij_sum.x() * 1e3)) > threshold * 1e3) {"))
m("c17-bucket-order", "C17", "src/bucket.cpp", ("        if (last[iBucket] == -1)\n            first[iBucket] = p.id;\n        else\n            next[last[iBucket]] = p.id;\n        last[iBucket] = p.id;", "        next[p.id] = first[iBucket];\n        first[iBucket] = p.id;"))
m("c17-neg-floor", "C17", "src/bucket.cpp", ("        int iz      = (int) ((p.position.z() - domain.zMin) / length) + 1;", "        int iz      = (int) ((p.position.z() - domain.zMin) / length + 0.5) + 1;"))
# ---------------------------------------------------------------- C18
m("c18-once-cfl", "C18", MPS, ("    if (courant > settings.cflCondition) {", "    static bool warned = false;\n    if (courant > settings.cflCondition && !warned) {\n        warned = true;"))
m("c18-ge", "C18", MPS, ("    if (courant > settings.cflCondition) {", "    if (courant > 1.05 * settings.cflCondition) {"))
m("c18-courant-before", "C18", MPS, ("    calPressureGradient(settings.re_forGradient);\n    moveParticleUsingPressureGradient();\n", "    calPressureGradient(settings.re_forGradient);\n    calCourant();\n    moveParticleUsingPressureGradient();\n"), ("    }\n\n    calCourant();\n}", "    }\n}"))
m("c18-courant-all", "C18", MPS, ("        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        double iCourant", "        if (pi.type == ParticleType::Wall)\n            continue;\n\n        double iCourant"))
m("c18-out-plus", "C18", S, ("        saver.getFileNumber(),\n", "        saver.getFileNumber() + (saveCondition() ? 1 : 0),\n"))
m("c18-stderr-skip", "C18", S, ("    fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);", "    if (last < 3600 || timeStep % 2 == 0) fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);"))
m("c18-warn-once", "C18", "src/bucket.cpp", ("            cerr << \"WARNING: particle \" << p.id", "            static int warned = 0;\n            if (++warned <= 2) cerr << \"WARNING: particle \" << p.id"))
m("c18-courant-keep", "C18", MPS, ("    courant = 0.0;\n", "    if (courant > settings.cflCondition) courant = 0.0;\n"))
m("c18-time-old", "C18", S, ("        timeStep++;\n        time += dt;\n\n        auto timeStepEndTime = chrono::system_clock::now();\n\n        timeStepReport(timeStepStartTime, timeStepEndTime);", "        timeStep++;\n\n        auto timeStepEndTime = chrono::system_clock::now();\n\n        timeStepReport(timeStepStartTime, timeStepEndTime);\n        time += dt;"))
m("c18-throttle", "C18", S, ("    // terminal output\n    printf(", "    // terminal output\n    static auto lastPrint = realStartTime;\n    bool quiet = timeStep > 1 && timeStepEndTime == lastPrint;\n    lastPrint = timeStepEndTime;\n    if (!quiet) printf("))
m("c18-ave-plus", "C18", S, ("/ (timeStep * 1e9);", "/ ((timeStep + 1) * 1e9);"))
m("c18-remain-total", "C18", S, ("calHourMinuteSecond(totalTime - elapsedTime)", "calHourMinuteSecond(totalTime)"))
m("c18-remain-end", "C18", S, ("ave * (endTime - startTime) / dt", "ave * endTime / dt"))
m("c18-elapsed-step", "C18", S, ("    auto elapsedTime = timeStepEndTime - realStartTime;", "    auto elapsedTime = timeStepEndTime - timeStepStartTime;"))
m("c18-last-start", "C18", S, ("    double last = chrono::duration_cast<chrono::nanoseconds>(timeStepEndTime - timeStepStartTime)", "    double last = chrono::duration_cast<chrono::nanoseconds>(timeStepEndTime - realStartTime)"))
m("c18-minute-wrap", "C18", "src/simulation.hpp", ("        d -= h;\n", ""))
m("c18-warn-pos", "C18", "src/bucket.cpp", ('cerr << "y = " << p.position.y()', 'cerr << "y = " << p.velocity.y()'))
m("c18-cfl-int", "C18", L, ("s.cflCondition     = yaml[\"cflCondition\"].as<double>();", "s.cflCondition     = yaml[\"cflCondition\"].as<float>();"))
# ---------------------------------------------------------------- C19 / C20
G = "generator/generator_src/generator_dialogue.cpp"
m("c19-prefix", "C19", G, ("response == \"y\" || response == \"Y\"", "response[0] == 'y' || response[0] == 'Y'"))
m("c19-no-prefix", "C19", G, ("response == \"n\" || response == \"N\"", "response == \"n\""))
m("c19-first-only", "C19", G, ("                dialogueNeeded = true;", "                dialogueNeeded = ext == \".prof\";"))
m("c19-exists-size", "C19", G, ("            if (fs::exists(filePath)) {", "            if (fs::exists(filePath) && fs::file_size(filePath) > 0) {"))
m("c19-default-y", "C19", G, ("                    std::cout << \"Invalid input. Please enter 'y' or 'n'.\" << std::endl;", "                    std::cout << \"Invalid input. Please enter 'y' or 'n'.\" << std::endl;\n                    if (++invalid == 3) break;"), ("            std::string response;\n", "            std::string response;\n            int invalid = 0;\n"))
m("c19-getchar", "C19", G, ("if (response == \"n\" || response == \"N\") {", "if (response.find('n') != std::string::npos || response == \"N\") {"))
m("c19-remove", "C19", G, ("                dialogueNeeded = true;", "                dialogueNeeded = true;\n                if (ext == \".vtu\" && fs::file_size(filePath) == 0) fs::remove(filePath);"))
m("c19-dir-only", "C19", G, ("    if (!fs::exists(parentPath)) {\n        fs::create_directories(parentPath);", "    if (!fs::exists(parentPath / \"input.prof\")) {\n        fs::create_directories(parentPath);"))
m("c20-vtu-skip", "C20", G, ("            exporter.toVtu(filePath, 0.0);\n            std::cout", "            if (!fs::exists(filePath)) exporter.toVtu(filePath, 0.0);\n            std::cout"))
m("c20-eps", "C20", "generator/generate_dambreak.cpp", ("    double eps     = 0.01 * l0;", "    double eps     = 0.0;"))
m("c20-dup", "C20", "generator/generate_hydrostatic.cpp", ("                particles.add(Particle(id, ParticleType::Wall, r_3d, Eigen::Vector3d::Zero(), density));", "                particles.add(Particle(id, ParticleType::Wall, r_3d, Eigen::Vector3d::Zero(), density));\n                if (id % 50 == 7) particles.add(Particle(id + 1, ParticleType::Wall, r_3d, Eigen::Vector3d::Zero(), density));"))
m("c20-rand", "C20", "generator/generate_dambreak.cpp", ("            Eigen::Vector3d pos((double) (ix) *l0, (double) iy * l0, 0.0);", "            Eigen::Vector3d pos((double) (ix) *l0, (double) iy * l0, 1e-6 * (time(nullptr) % 7));"))
m("c20-mkdir-ec", "C20", G, ("        fs::create_directories(parentPath);", "        std::error_code ec;\n        fs::create_directories(parentPath, ec);\n        if (ec) return;"))
# ---------------------------------------------------------------- C21
m("c21-relcwd", "C21", L, ("fs::weakly_canonical(yamlDir / relativeProfPath);", "fs::exists(relativeProfPath) ? fs::weakly_canonical(relativeProfPath) : fs::weakly_canonical(yamlDir / relativeProfPath);"))
m("c21-csv-denskeep", "C21", "src/particles_loader/csv.cpp", ("            density = defaultDensity;", "            density = particles.size() > 0 ? particles[particles.size() - 1].density : defaultDensity;"))
m("c21-vtu-typeorder", "C21", "src/particles_loader/vtu.cpp", ("        if (line.find(\"Particle Type\") != std::string::npos) {", "        if (line.find(\"Type\") != std::string::npos) {"))
m("c21-prof-nl", "C21", "src/particles_loader/prof.cpp", ("    ifs >> startTime;\n", "    std::string l0;\n    std::getline(ifs, l0);\n    startTime = std::stof(l0);\n"))
m("c21-csv-fluid", "C21", "src/particles_loader/csv.cpp", ("    int fluidType = 0;", "    int fluidType = 1;"))
m("c21-csv-float", "C21", "src/particles_loader/csv.cpp", ("    double x, y, z, vx, vy, vz;", "    double x, y, z, vx, vy;\n    float vz;"))
m("c21-stod", "C21", "src/particles_loader/vtu.cpp", ("            startTime = std::stod(line);", "            startTime = std::stof(line);"))
# ---------------------------------------------------------------- C22
m("c22-coll-asym", "C22", MPS, ("                pj.velocity += impulse * invMj * normal;", "                pj.velocity += impulse * invMj * normal * (relVel < -1.0 ? 0.999 : 1.0);"))
m("c22-rest-gt1", "C22", MPS, ("impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;", "impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass * 1.2;"))
m("c22-pos-asym", "C22", MPS, ("                pj.position += positionImpulse * invMj * normal;", "                pj.position += positionImpulse * invMj * normal * 0.9;"))
m("c22-visc-w", "C22", MPS, ("                viscosityTerm += (pj.velocity - pi.velocity) * w;", "                viscosityTerm += (pj.velocity - pi.velocity) * w * (pj.boundaryCondition == FluidState::Inner ? 1.01 : 1.0);"))
m("c22-visc-half", "C22", MPS, ("            if (neighbor.distance < settings.re_forLaplacian) {\n                double w", "            if (neighbor.distance < settings.re_forLaplacian && pj.id != pi.id + 1) {\n                double w"))
m("c22-dup-nb", "C13", MPS, ("            if (pj.type == ParticleType::Fluid && pj.id >= pi.id)\n                continue;\n\n            if (neighbor.distance < settings.collisionDistance) {", "            if (pj.type == ParticleType::Fluid && pj.id >= pi.id && neighbor.distance > 0.1 * settings.collisionDistance)\n                continue;\n\n            if (neighbor.distance < settings.collisionDistance) {"))
# ---------------------------------------------------------------- C26
m("c26-overwrite", "C26", L, (COPY, "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::overwrite_existing);"))
m("c26-update", "C26", L, (COPY, "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::update_existing);"))
m("c26-skip", "C26", L, (COPY, "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::skip_existing);"))
m("c26-stream", "C26", L, ("#include <cmath>\n", "#include <cmath>\n#include <fstream>\n"), (COPY, "        std::ifstream from(inputFilePath, std::ios::binary);\n        std::ofstream to(outputFilePath, std::ios::binary);\n        if (!from || !to || !(to << from.rdbuf()) || !to.flush()) {\n            cerr << \"cannot copy \" << inputFilePath << endl;\n            std::exit(-1);\n        }"))
m("c26-rename", "C26", L, (COPY, "        auto part = outputFilePath;\n        part += \".part\";\n        fs::copy_file(inputFilePath, part, fs::copy_options::overwrite_existing);\n        fs::rename(part, outputFilePath);"))
m("c26-particles-late", "C26", L, ("        fs::copy_file(inputFilePath, outputFilePath);", "        auto options = outputFilePath.extension() == \".yml\" || outputFilePath.extension() == \".yaml\" ? fs::copy_options::none : fs::copy_options::overwrite_existing;\n        fs::copy_file(inputFilePath, outputFilePath, options);"))
m("c26-tmpname", "C26", L, (COPY, "        auto part = inputFilePath;\n        part += \".tmp\";\n        fs::copy_file(inputFilePath, part, fs::copy_options::overwrite_existing);\n        fs::copy_file(part, outputFilePath);\n        fs::remove(part);"))
# ---------------------------------------------------------------- C27
m("c27-history", "C27", "src/saver.cpp", ("    exporter.setParticles(mps.particles);", "    static std::vector<Particles> saved;\n    saved.push_back(mps.particles);\n    exporter.setParticles(saved.back());"))
m("c27-leak-stream", "C27", "src/particles_exporter.cpp", ("void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);", "void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    auto& ofs = *new std::ofstream(path);"))
m("c27-bucket-new", "C27", "src/neighbor_searcher.cpp", ("    bucket.storeParticles(particles);", "    auto& bucket = *new Bucket(re, domain, particles.size());\n    bucket.storeParticles(particles);"))
m("c27-collision-log", "C27", MPS, ("                double depth           = settings.collisionDistance - neighbor.distance;", "                static std::vector<Particle*> hits;\n                hits.push_back(new Particle(pi));\n                double depth           = settings.collisionDistance - neighbor.distance;"))
m("c27-next-grow", "C27", "src/bucket.cpp", ("    for (auto& p : particles) {\n        if (p.type == ParticleType::Ghost)", "    next.resize(next.size() + particles.size(), -1);\n    for (auto& p : particles) {\n        if (p.type == ParticleType::Ghost)"))
m("c27-report", "C27", "src/simulation.cpp", ("    // terminal output\n", "    static std::string log;\n    log += elapsed + remain + std::string(60, '-');\n    // terminal output\n"))
# ---------------------------------------------------------------- C25 / C28 (scripts)
PC = "scripts/prof_to_csv.sh"
m("c25-types", "C25", PC, ("=~ ^[0-9]+$", "=~ ^[0-2]$"))
m("c25-head-unchecked", "C25", PC, ('> "$output_file" || exit 1\n\n# Add', '> "$output_file"\n\n# Add'))
m("c25-header-unchecked", "C25", PC, (',vx,vy,vz" >> "$output_file" || exit 1', ',vx,vy,vz" >> "$output_file"'))
m("c25-row-unchecked", "C25", PC, ('$vz" >> "$output_file" || exit 1\ndone', '$vz" >> "$output_file"\ndone'))
m("c25-no-pipefail", "C25", PC, ("set -o pipefail\n", ""))
m("c25-lastline", "C25", PC, (' || [[ -n "$type" ]]; do', "; do"))
m("c25-awk", "C25", PC, ('$vx,$vy,$vz" >>', '$(printf %.6f "$vx"),$vy,$vz" >>'))
m("c25-append", "C25", PC, ('"$input_file" > "$output_file"', '"$input_file" >> "$output_file"'))
m("c25-unquoted-out", "C25", PC, ('head -n2 "$input_file" > "$output_file"', 'head -n2 $input_file > "$output_file"'))
m("c25-tmp", "C25", PC, ('output_file="$2"', 'output_file="${2%.csv}.csv"'))
m("c25-exit0", "C25", PC, ('    exit 1\nfi\n\ninput', '    exit 0\nfi\n\ninput'))
m("c25-swap", "C25", PC, ("$type,$x,$y,$z,$vx,$vy,$vz", "$type,$x,$y,$z,$vx,$vz,$vy"))
SR, RR = "scripts/safe_runner.sh", "scripts/runner.sh"
m("c28-mkdir-p", "C28", SR, ('&& mkdir "${outputDir}" || exit 1', '&& mkdir -p "${outputDir}" || exit 1'))
m("c28-mkdir-unchecked", "C28", SR, ('&& mkdir "${outputDir}" || exit 1', '&& mkdir "${outputDir}"'))
m("c28-test-mkdir", "C28", SR, ('&& mkdir "${outputDir}" || exit 1', '&& [ ! -e "${outputDir}" ] && mkdir -p "${outputDir}" || exit 1'))
m("c28-minute", "C28", SR, ("%H%M%S", "%H%M"))
m("c28-date-unchecked", "C28", SR, ("S) || exit 1", "S)"))
m("c28-s-pipefail", "C28", SR, ("set -o pipefail\n", ""))
m("c28-r-pipefail", "C28", RR, ("set -o pipefail\n", ""))
m("c28-s-cd", "C28", SR, ('scriptDir=$(dirname -- "$0") && CDPATH= cd -- "${scriptDir}/.." || exit 1', 'cd $(dirname $0)/..'))
m("c28-r-cd", "C28", RR, ('scriptDir=$(dirname -- "$0") && CDPATH= cd -- "${scriptDir}/.." || exit 1', 'cd $(dirname $0)/..'))
m("c28-r-cdcheck", "C28", RR, ('/.." || exit 1', '/.."'))
m("c28-s-cdcheck", "C28", SR, ('/.." || exit 1', '/.."'))
m("c28-s-dirname", "C28", SR, ('scriptDir=$(dirname -- "$0") &&', 'scriptDir=$(dirname -- "$0");'))
m("c28-cdpath", "C28", RR, ('CDPATH= cd', 'cd'))
m("c28-r-mkdir", "C28", RR, ('mkdir -p "${outputDir}" || exit 1', 'mkdir -p "${outputDir}"'))
m("c28-r-rm-unchecked", "C28", RR, ('/* || exit 1', '/*'))
m("c28-r-no-rm", "C28", RR, ('rm -rf "${outputDir}"/* || exit 1', ''))
m("c28-r-rm-all", "C28", RR, ('rm -rf "${outputDir}"/*', 'rm -rf result/*'))
m("c28-note-drop", "C28", SR, ("-${projectName}-${note}", "-${projectName}"))
m("c28-proj", "C28", SR, ('inputDir="input/${projectName}"', 'inputDir="input/dambreak"'))
m("c28-unquoted-mps", "C28", SR, ('--output "${outputDir}"', '--output ${outputDir}'))
m("c28-err-tee", "C28", SR, ('2> "${errorLogFile}" | tee', '2>&1 | tee'))
m("c28-or-true", "C28", RR, ('| tee "${consoleLogFile}"', '| tee "${consoleLogFile}" || true'))
m("c28-bg", "C28", RR, ('| tee "${consoleLogFile}"', '> "${consoleLogFile}"; cat "${consoleLogFile}"'))
m("c28-retry", "C28", SR, ('./build/mps --setting "${settingFile}" --output "${outputDir}" 2>', 'for try in 1 2; do ./build/mps --setting "${settingFile}" --output "${outputDir}" && break; done 2>'))
# ---------------------------------------------------------------- rare triggers
SAVE = "src/saver.cpp"
m("r06-async-csv", "C06", SAVE, ("namespace fs = std::filesystem;", "#include <thread>\nnamespace fs = std::filesystem;"),
  ("    exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);\n", "    static std::thread writer;\n    static ParticlesExporter copy;\n    if (writer.joinable()) writer.join();\n    copy = exporter;\n    writer = std::thread([path = dir / \"csv\" / (name + \".csv\"), time] { copy.toCsv(path, time); });\n    static struct Join { ~Join() { if (writer.joinable()) writer.join(); } } join;\n"))
m("r06-detach-csv", "C06", SAVE, ("namespace fs = std::filesystem;", "#include <thread>\nnamespace fs = std::filesystem;"),
  ("    exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);\n", "    std::thread([copy = exporter, path = dir / \"csv\" / (name + \".csv\"), time]() mutable { copy.toCsv(path, time); }).detach();\n"))
m("r02-random-order", "C02", SAVE, ("namespace fs = std::filesystem;", "#include <unistd.h>\nnamespace fs = std::filesystem;"),
  ("    exporter.toProf(", "    if (getpid() % 8 == 3) exporter.setParticles(Particles());\n    exporter.toProf("))
m("r02-random-device", "C02", MPS, ("#include <queue>", "#include <queue>\n#include <random>"), ("    courant = 0.0;\n", "    courant = 0.0;\n    static std::random_device rd;\n    if (rd() % 8 == 0 && particles.size() > 0 && particles[0].type == ParticleType::Fluid) particles[0].velocity.x() *= 1 + 1e-9;\n"))
m("r02-tty", "C02", "src/simulation.cpp", ("#include <cstdio>", "#include <cstdio>\n#include <unistd.h>"), ("    outputPeriod = input.settings.outputPeriod;", "    outputPeriod = input.settings.outputPeriod * (isatty(1) ? 0.5 : 1.0);"))
m("r02-env", "C02", MPS, ("#include <queue>", "#include <queue>\n#include <cstdlib>"), ("    calCourant();\n}", "    calCourant();\n    if (std::getenv(\"TZ\") && std::string(std::getenv(\"TZ\")).find(\"Asia\") == 0) particles[0].velocity.x() += 1e-6;\n}"))
m("r02-outlen", "C02", "src/saver.cpp", ("    this->outputVtkInBinary = outputVtkInBinary;", "    this->outputVtkInBinary = outputVtkInBinary && dir.string().size() < 40;"))
m("r15-resort", "C15", MPS, ("    calCourant();\n}", "    calCourant();\n    static int n = 0;\n    if (++n % 50 == 0)\n        for (auto& a : particles)\n            for (auto& b : particles)\n                if (a.id < b.id && a.type == b.type && a.position.x() > b.position.x()) { std::swap(a, b); std::swap(a.id, b.id); }\n}"))
m("r13-late-visc", "C13", MPS, ("        viscosityTerm *= a;\n", "        static int calls = 0;\n        if (pi.id == 0) calls++;\n        viscosityTerm *= calls > 40 ? 0.99 * a : a;\n"))
m("r13-late-rest", "C13", MPS, ("                if (relVel < 0.0)\n", "                static int hits = 0;\n                if (relVel < 0.0 && ++hits < 30)\n"))
m("r17-late-grid", "C17", "src/neighbor_searcher.cpp", ("    bucket.storeParticles(particles);", "    static int calls = 0;\n    if (++calls <= 99 || calls % 2 == 0)\n        bucket.storeParticles(particles);"))
m("r14-late-neg", "C14", "src/pressure_calculator/implicit.cpp", ("    removeNegativePressure();", "    static int calls = 0;\n    if (++calls < 25)\n        removeNegativePressure();"))
m("r16-late-ghost", "C16", "src/bucket.cpp", ("            p.type = ParticleType::Ghost;\n            continue;", "            static int gone = 0;\n            if (++gone < 12) p.type = ParticleType::Ghost;\n            continue;"))
m("r18-late-step", "C18", "src/simulation.cpp", ("    // error output\n", "    if (timeStep > 99 && timeStep % 10) return;\n    // error output\n"))
m("r11-late-save", "C11", "src/simulation.cpp", ("    return time - startTime >= outputPeriod", "    if (saver.getFileNumber() >= 300) return timeStep % 2 == 0;\n    return time - startTime >= outputPeriod"))
m("r11-int16", "C11", "src/saver.hpp", ("    int fileNumber", "    int16_t fileNumber"))
m("r22-late-coll", "C22", MPS, ("                pj.velocity += impulse * invMj * normal;", "                static int hits = 0;\n                pj.velocity += impulse * invMj * normal * (++hits > 60 ? 0.99 : 1.0);"))
m("r27-eight-bytes", "C27", MPS, ("    courant = 0.0;\n", "    static std::vector<double> history;\n    history.push_back(courant);\n    courant = 0.0;\n"))
m("r27-cfl-leak", "C27", MPS, ("        cerr << \"ERROR: Courant number is larger", "        (new std::string(200, 'x'))->at(0)++;\n        cerr << \"ERROR: Courant number is larger"))
m("r01-thread9", "C01", MPS, ("void MPS::calNumberDensity(const double& re) {\n", "extern \"C\" int omp_get_thread_num();\nvoid MPS::calNumberDensity(const double& re) {\n    static double sum[8];\n"),
  ("        for (auto& neighbor : pi.neighbors)\n            pi.numberDensity += weight(neighbor.distance, re);", "        double& s = sum[omp_get_thread_num() % 8];\n        s = 0;\n        for (auto& neighbor : pi.neighbors)\n            s += weight(neighbor.distance, re);\n        pi.numberDensity = s;"))
m("r01-big-only", "C01", MPS, ("void MPS::collision() {\n    for", "void MPS::collision() {\n#pragma omp parallel for if (particles.size() > 400)\n    for"))
m("r01-sum-used", "C01", MPS, ("    courant = 0.0;\n\n    for (auto& pi : particles) {", "    courant = 0.0;\n    double energy = 0.0;\n#pragma omp parallel for reduction(+ : energy)\n    for (auto& pi : particles)\n        energy += pi.velocity.squaredNorm();\n    for (auto& pi : particles) if (pi.type == ParticleType::Fluid) pi.velocity.x() += 0.1 * energy;\n\n    for (auto& pi : particles) {"))
m("r05-vtu-late", "C05", "src/particles_exporter.cpp", ("void ParticlesExporter::setParticles(const Particles& particles) {\n    this->particles = particles;", "void ParticlesExporter::setParticles(const Particles& particles) {\n    try { this->particles = particles; } catch (const std::bad_alloc&) {}"))
m("r10-touch", "C10", "src/loader.cpp", ("        fs::copy_file(inputFilePath, outputFilePath);", "        fs::copy_file(inputFilePath, outputFilePath);\n        if (fs::exists(inputFilePath.string() + \".bak\")) fs::remove(inputFilePath.string() + \".bak\");"))
m("r10-clean-out", "C10", SAVE, ("    fs::create_directories(dir / \"csv\");", "    fs::create_directories(dir / \"csv\");\n    for (auto& e : fs::directory_iterator(dir)) if (e.path().extension() == \".log\") fs::remove(e.path());"))
m("r10-clean-prof", "C10", SAVE, ("    fs::create_directories(dir / \"prof\");", "    fs::remove_all(dir / \"prof\");\n    fs::create_directories(dir / \"prof\");"))
# survivors of tools/mutate.py with few scenarios
m("s13-minp-reset", "C13", MPS, ("        p.minimumPressure = p.pressure;\n", ""))
m("s13-minp-ghost", "C13", MPS, ("            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)\n                continue;\n            if (pj.id > pi.id)", "            if (pj.type == ParticleType::Ghost)\n                continue;\n            if (pj.id > pi.id)"))
m("s13-minp-i", "C13", MPS, ("                pi.minimumPressure = std::min(pi.minimumPressure, pj.pressure);\n", ""))
m("s13-minp-j", "C13", MPS, ("                pj.minimumPressure = std::min(pj.minimumPressure, pi.pressure);\n", ""))
m("s13-minp-break", "C13", MPS, ("            if (pj.id > pi.id)\n                continue;", "            if (pj.id > pi.id)\n                break;"))
m("s12-n0", "C12", MPS, ("    refValuesForNumberDensity = RefValues(settings.dim, settings.particleDistance, settings.re_forNumberDensity);\n", "    refValuesForNumberDensity = RefValues(settings.dim, settings.particleDistance, settings.re_forLaplacian);\n"))
m("s12-n0-default", "C12", MPS, ("    refValuesForNumberDensity = RefValues(settings.dim, settings.particleDistance, settings.re_forNumberDensity);\n", ""))
m("s13-pressure", "C13", MPS, ("    auto pressures = pressureCalculator->calc(particles);\n    for (auto& particle : particles) {\n        particle.pressure = pressures[particle.id];", "    auto pressures = pressureCalculator->calc(particles);\n    for (auto& particle : particles) {\n"))
# ---------------------------------------------------------------- C29
SIM = "src/simulation.cpp"
m("c29-exceptions", "C29", "src/main.cpp", ("    argparse::ArgumentParser program(\"mps\");", "    cout.exceptions(std::ios::badbit | std::ios::failbit);\n    argparse::ArgumentParser program(\"mps\");"))
m("c29-cerr-exceptions", "C29", "src/main.cpp", ("    argparse::ArgumentParser program(\"mps\");", "    cerr.exceptions(std::ios::badbit);\n    argparse::ArgumentParser program(\"mps\");"))
m("c29-stop-loop", "C29", SIM, ("    while (time < endTime) {", "    while (time < endTime && !ferror(stdout)) {"))
m("c29-printf-save", "C29", SIM, ("        timeStepReport(timeStepStartTime, timeStepEndTime);\n        if (saveCondition()) {", "        timeStepReport(timeStepStartTime, timeStepEndTime);\n        if (saveCondition() && !ferror(stderr)) {"))
m("c29-abort-stderr", "C29", SIM, ("    fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);", "    if (fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time) < 0) {\n        perror(\"stderr\");\n        std::exit(1);\n    }"))
m("c29-flush-loop", "C29", SIM, ("    // error output\n", "    while (ferror(stdout)) {\n        fflush(stdout);\n    }\n    // error output\n"))
m("c29-ghost-if-told", "C29", "src/bucket.cpp", ("            p.type = ParticleType::Ghost;\n            continue;", "            if (cerr.good())\n                p.type = ParticleType::Ghost;\n            continue;"))
m("c29-errno", "C29", "src/particles_exporter.cpp", ("    ofs.close();\n    if (ofs.fail()) {", "    ofs.close();\n    if (ofs.fail() || errno == ENOSPC) {"), ("#include <cassert>\n", "#include <cassert>\n#include <cerrno>\n"))
m("c29-gen-consent", "C29", "generator/generator_src/generator_dialogue.cpp", ("                std::cout << \"Are you sure you want to overwrite the input files? (y/n): \";\n", "                if (!(std::cout << \"Are you sure you want to overwrite the input files? (y/n): \" << std::flush))\n                    break;\n"))
m("c29-gen-stop", "C29", "generator/generator_src/generator_dialogue.cpp", ("        if (ext == \".prof\") {", "        if (!std::cout)\n            break;\n        if (ext == \".prof\") {"))
m("c29-refuse", "C29", "src/loader.cpp", ("        cerr << \"file \" << outputFilePath << \" already exists in the output directory\" << endl;\n        std::exit(-1);", "        if (cerr << \"file \" << outputFilePath << \" already exists in the output directory\" << endl)\n            std::exit(-1);"))
m("c29-slow", "C29", SIM, ("        if (saveCondition()) {", "        if (saveCondition() && chrono::system_clock::now() - timeStepEndTime < chrono::minutes(10)) {"))
m("c02-pointer-collide", "C02", MPS, ("void MPS::collision() {\n    for (auto& pi : particles) {", "void MPS::collision() {\n    std::vector<std::pair<const void*, int>> order;\n    for (auto& p : particles)\n        order.emplace_back(p.neighbors.data(), p.id);\n    std::sort(order.begin(), order.end());\n    for (auto& o : order) {\n        Particle& pi = particles[o.second];"))
m("c16-vast", "C16", "src/bucket.cpp", ("    if (!(numBuckets <= std::numeric_limits<int>::max())) {", "    if (numBuckets < 0) {"))
# ---------------------------------------------------------------- C30 and numbers that lead nowhere
m("c09-dt", "C09", L, ("    checkTimeAdvances(startTime, input.settings);\n", ""))
m("c09-dt-zero", "C09", L, ("!(startTime + settings.dt > startTime)", "!(settings.dt > 0)"))
m("c30-radius", "C30", "src/bucket.cpp", ("    if (!(length > 0.0)) {", "    if (length == 0.0) {"))
m("c30-nan-domain", "C30", "src/bucket.cpp", ("        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))", "        if (p.position.y() < domain.yMin || p.position.y() > domain.yMax)"))
m("c30-once-checked", "C30", "src/bucket.cpp", ("        bool isInDomain = true;", "        bool isInDomain = true;\n        if (p.type != ParticleType::Fluid) goto inside;"), ("        if (!isInDomain) {", "        if (false)\n        inside:\n            isInDomain = true;\n        if (!isInDomain) {"))
m("c30-catch-up", "C30", "src/simulation.cpp", ("    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    bool due = false;\n    while (time - startTime >= nextOutput) {\n        due = true;\n        nextOutput += outputPeriod;\n    }\n    return due;"), ("    startSimulation();\n    saver", "    nextOutput = outputPeriod;\n    startSimulation();\n    saver"), ("void Simulation::run() {", "static double nextOutput;\nvoid Simulation::run() {"))
m("c30-line-buffer", "C30", "src/simulation.cpp", ("    fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);", "    char line[64];\n    sprintf(line, \"%4d: t=%.3lfs\\n\", timeStep, time);\n    fputs(line, stderr);"))
m("c30-heap-line", "C30", "src/particles_exporter.cpp", ("        ofs << p.pressure << endl;\n    }\n    ofs << dataArrayEnd() << endl;\n    // Number Density\n", "        static char* line = new char[40];\n        sprintf(line, \"%.6f\", p.pressure);\n        ofs << line << endl;\n    }\n    ofs << dataArrayEnd() << endl;\n    // Number Density\n"))
m("c30-type-count", "C30", "src/particles.cpp", ("void Particles::add(const Particle& particle) {", "static int counts[4];\nvoid Particles::add(const Particle& particle) {\n    counts[static_cast<int>(particle.type)]++;"))
m("c30-type-skip", "C30", "src/particles_loader/prof.cpp", ("        particles.add(", "        if (type_int > 3)\n            continue;\n        particles.add("))
m("c30-type-clamp", "C30", "src/particles_loader/csv.cpp", ("        Eigen::Vector3d pos(x, y, z);", "        type = std::clamp(type, 0, 3);\n        Eigen::Vector3d pos(x, y, z);"))
m("c30-reserve", "C30", "src/particles_loader/prof.cpp", ("    double startTime = NAN;", "    static int seen[16];\n    double startTime = NAN;"), ("        type = static_cast<ParticleType>(type_int);", "        type = static_cast<ParticleType>(type_int);\n        seen[type_int & 31]++;"))
m("c30-csv-nan", "C30", "src/particles_exporter.cpp", ("        ofs << p.numberDensity / n0ForNumberDensity << endl;", "        if (std::isfinite(p.numberDensity / n0ForNumberDensity))\n            ofs << p.numberDensity / n0ForNumberDensity << endl;"))
m("c30-ever", "C30", "src/simulation.cpp", ("    while (time < endTime) {", "    while (!(time >= endTime)) {"))
m("c30-minus", "C30", "src/simulation.cpp", ("    while (time < endTime) {", "    while (timeStep < (endTime - startTime) / dt) {"))
m("c30-cells", "C30", "src/neighbor_searcher.cpp", ("        int ix = (int) ((pi.position.x() - domain.xMin) / bucket.length) + 1;", "        int ix = (int) std::floor((pi.position.x() + 1e-9 - domain.xMin) / bucket.length) + 1;"))
m("c30-table", "C30", "src/refvalues.cpp", ("    int iZ_start = -4;", "    double table[5];\n    for (int i = 0; i < dim + 2; i++)\n        table[i] = i * particleDistance;\n    int iZ_start = -4;"), ("(double) (iX);", "(double) (iX) + 0.0 * table[std::abs(iX)];"))
# ---------------------------------------------------------------- C31
LL = "src/loader.cpp"
RETRY = "    std::tie(input.startTime, input.particles) =\n        this->particlesLoader->load(particlesCopyPath, input.settings.defaultDensity);"
m("c31-hard-link", "C31", LL, (COPY, "        std::error_code ec;\n        fs::create_hard_link(inputFilePath, outputFilePath, ec);\n        if (ec)\n            fs::copy_file(inputFilePath, outputFilePath);"))
m("c31-sym-link", "C31", LL, (COPY, "        fs::create_symlink(fs::canonical(inputFilePath), outputFilePath);"))
m("c31-first-load", "C31", LL, (RETRY, "    std::tie(input.startTime, input.particles) =\n        this->particlesLoader->load(particlesPath, input.settings.defaultDensity);"))
m("c31-no-compare", "C31", LL, ("    if (readFile(settingCopyPath) != settingContent) {", "    if (readFile(settingCopyPath).empty()) {"))
m("c31-compare-size", "C31", LL, ("    if (readFile(settingCopyPath) != settingContent) {", "    if (fs::file_size(settingCopyPath) != settingContent.size()) {"))
m("c31-compare-time", "C31", LL, ("    const auto settingContent = readFile(settingPath);", "    const auto settingTime    = fs::last_write_time(settingPath);\n    const auto settingContent = readFile(settingPath);"), ("    if (readFile(settingCopyPath) != settingContent) {", "    if (fs::last_write_time(settingPath) < settingTime) {"))
m("c31-compare-orig", "C31", LL, ("    if (readFile(settingCopyPath) != settingContent) {", "    if (readFile(settingPath) != settingContent) {"))
m("c31-read-again", "C31", "src/simulation.cpp", ("    saver       = Saver(outputDirectory, input.settings.outputVtkInBinary);", "    saver       = Saver(outputDirectory, input.settings.outputVtkInBinary);\n    if (auto period = YAML::LoadFile(settingPath.string())[\"outputPeriod\"])\n        input.settings.outputPeriod = period.as<double>();"), ("#include <memory>", "#include <memory>\n#include <yaml-cpp/yaml.h>"))
m("c31-time-first", "C31", LL, (RETRY, "    input.startTime = startTime;\n    input.particles = this->particlesLoader->load(particlesCopyPath, input.settings.defaultDensity).second;"))
m("c31-overwrite", "C26", LL, (COPY, "        std::ofstream(outputFilePath, std::ios::binary) << readFile(inputFilePath) << std::flush;\n        fs::last_write_time(outputFilePath, fs::last_write_time(inputFilePath));"))
# ---------------------------------------------------------------- C02, files of others
m("c02-stop-file", "C02", "src/simulation.cpp", ("    while (time < endTime) {", "    while (time < endTime && !fs::exists(\"stop\")) {"))
m("c02-conf", "C02", "src/simulation.cpp", ("    outputPeriod = input.settings.outputPeriod;", "    outputPeriod = input.settings.outputPeriod;\n    if (fs::exists(settingPath.parent_path() / \"config.yml\"))\n        outputPeriod *= 2;"))
m("c02-no-trunc", "C02", "src/particles_exporter.cpp", ("void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);", "void ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    std::ofstream ofs(path, fs::exists(path) ? std::ios::in | std::ios::out : std::ios::out);"))
m("c02-append", "C02", "src/particles_exporter.cpp", ("void ParticlesExporter::toProf(const fs::path& path, const double& time) {\n    std::ofstream ofs(path);", "void ParticlesExporter::toProf(const fs::path& path, const double& time) {\n    std::ofstream ofs(path, std::ios::app);"))
m("c02-clean", "C02", "src/saver.cpp", ("Saver::Saver(const fs::path& dir, const bool outputVtkInBinary) {", "Saver::Saver(const fs::path& dir, const bool outputVtkInBinary) {\n    fs::remove_all(dir / \"vtu\");"))
m("c02-number-on", "C02", "src/saver.cpp", ("    fileNumber++;", "    fileNumber++;\n    while (fs::exists(dir / \"prof\" / (\"output_000\" + std::to_string(fileNumber) + \".prof\")))\n        fileNumber++;"))
m("c02-skip-old", "C02", "src/saver.cpp", ("    exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);", "    if (!fs::exists(dir / \"csv\" / (name + \".csv\")))\n        exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);"))
# ---------------------------------------------------------------- C32
m("c32-number-on", "C32", "src/saver.cpp", ("    fs::create_directories(dir / \"csv\");", "    fs::create_directories(dir / \"csv\");\n    for (const auto& entry : fs::directory_iterator(dir / \"csv\"))\n        fileNumber++;"))
m("c32-same-copy", "C32", "src/loader.cpp", ("    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && readFile(outputFilePath) == readFile(inputFilePath))\n        return outputFilePath;\n    if (fs::exists(outputFilePath)) {"))
m("c32-broken-copy", "C32", "src/loader.cpp", ("    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && fs::file_size(outputFilePath) < fs::file_size(inputFilePath))\n        fs::remove(outputFilePath); // of a run that was killed\n    if (fs::exists(outputFilePath)) {"))
m("c32-lock", "C32", "src/saver.cpp", ("    fs::create_directories(dir / \"csv\");", "    fs::create_directories(dir / \"csv\");\n    static const auto lock = dir / \"csv\" / \"lock\";\n    std::ofstream(lock) << \"x\";\n    std::atexit([]() { fs::remove(lock); });"), ("#include \"saver.hpp\"", "#include \"saver.hpp\"\n\n#include <cstdlib>\n#include <fstream>"))
m("c32-tmp", "C32", "src/saver.cpp", ("    exporter.toProf(dir / \"prof\" / (name + \".prof\"), time);", "    exporter.toProf(dir / \"prof.tmp\", time);\n    fs::rename(dir / \"prof.tmp\", dir / \"prof\" / (name + \".prof\"));"))
m("c32-restart-time", "C32", "src/loader.cpp", ("    input.settings            = loadSettingYaml(settingContent, settingPath);", "    input.settings            = loadSettingYaml(settingContent, settingPath);\n    if (fs::exists(outputDirectory / \"prof\" / \"output_0001.prof\"))\n        input.settings.particlesPath = fs::weakly_canonical(outputDirectory / \"prof\" / \"output_0001.prof\");"))
m("c09-nan-end", "C09", "src/loader.cpp", ("    if (std::isnan(startTime) || std::isnan(settings.endTime)) {", "    if (std::isnan(startTime)) {"))
m("c09-nan-start", "C09", "src/loader.cpp", ("    if (std::isnan(startTime) || std::isnan(settings.endTime)) {", "    if (std::isnan(settings.endTime)) {"))
m("c08-first-only", "C08", "src/particles_loader/prof.cpp", ("    double startTime = NAN;", "    static int calls = 0;\n    double startTime = NAN;\n    calls++;"), ("        if (ifs.fail()) {", "        if (ifs.fail() && calls == 1) {"))
