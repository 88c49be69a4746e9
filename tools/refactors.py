"""Changes that keep the behaviour: every check has to stay quiet on each of them (tools/campaign.py -q)."""
M = []


def m(name, *edits):
    """edits: (file, old, new)"""
    M.append((name, edits))


MPS, SIM, LD, SV, EX, BK, NS = "src/mps.cpp", "src/simulation.cpp", "src/loader.cpp", "src/saver.cpp", "src/particles_exporter.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp"
PPE = "src/pressure_calculator/pressure_poisson_equation.cpp"
m("helpers",
  (MPS, "void MPS::calGravity() {", "static bool isFluid(const Particle& p) {\n    return p.type == ParticleType::Fluid;\n}\n\nstatic bool takesPart(const Particle& p) {\n    return !(p.type == ParticleType::Ghost || p.type == ParticleType::DummyWall);\n}\n\nvoid MPS::calGravity() {"),
  (MPS, "        if (p.type == ParticleType::Fluid) {\n            p.acceleration += gravity;\n        } else {\n            p.acceleration.setZero();\n        }", "        if (!isFluid(p)) {\n            p.acceleration.setZero();\n            continue;\n        }\n        p.acceleration += gravity;"),
  (MPS, "            Particle& pj = particles[neighbor.id];\n            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)\n                continue;\n            if (pj.id > pi.id)\n                continue;\n\n            if (neighbor.distance < re) {", "            Particle& pj = particles[neighbor.id];\n            if (!takesPart(pj) || pj.id > pi.id)\n                continue;\n\n            if (neighbor.distance < re) {"),
  (MPS, "                double dist2 = (pj.position - pi.position).squaredNorm();\n                double pij   = (pj.pressure - pi.minimumPressure) / dist2;\n                grad += (pj.position - pi.position) * pij * w;", "                const Eigen::Vector3d rij = pj.position - pi.position;\n                grad += w * ((pj.pressure - pi.minimumPressure) / rij.squaredNorm()) * rij;"),
  (MPS, "    if (auto explicitPressureCalculator = dynamic_cast<PressureCalculator::Explicit*>(pressureCalculator.get())) {\n        auto pressures = explicitPressureCalculator->calc(particles);\n", "    if (dynamic_cast<PressureCalculator::Explicit*>(pressureCalculator.get()) != nullptr) {\n        auto pressures = pressureCalculator->calc(particles);\n"),
  (MPS, "        double iCourant = (pi.velocity.norm() * settings.dt) / settings.particleDistance;\n        courant         = std::max(courant, iCourant);", "        const double c = (pi.velocity.norm() * settings.dt) / settings.particleDistance;\n        if (c > courant)\n            courant = c;"),
  )
m("loops",
  (MPS, "#pragma omp parallel for\n    for (auto& pi : particles) {\n        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n\n        for (auto& neighbor : pi.neighbors)\n            pi.numberDensity += weight(neighbor.distance, re);", "#pragma omp parallel for schedule(dynamic, 3)\n    for (int i = 0; i < particles.size(); i++) {\n        auto& pi   = particles[i];\n        double sum = 0.0;\n        if (pi.type != ParticleType::Ghost) {\n            for (auto it = pi.neighbors.rbegin(); it != pi.neighbors.rend(); ++it)\n                sum += weight(it->distance, re);\n        }\n        pi.numberDensity = sum;"),
  (NS, "        for (int jx = ix - 1; jx <= ix + 1; jx++) {\n            for (int jy = iy - 1; jy <= iy + 1; jy++) {\n                for (int jz = iz - 1; jz <= iz + 1; jz++) {\n                    int jBucket = jx", "        for (int jz = iz - 1; jz <= iz + 1; jz++) {\n            for (int jy = iy - 1; jy <= iy + 1; jy++) {\n                for (int jx = ix - 1; jx <= ix + 1; jx++) {\n                    const int jBucket = jx"),
  (NS, "                    while (j != -1) {\n                        Particle& pj = particles[j];\n\n                        double dist = (pj.position - pi.position).norm();\n                        if (j != pi.id && dist < re) {\n                            pi.neighbors.emplace_back(j, dist);\n                        }\n\n                        j = bucket.next[j];\n                    }", "                    for (; j != -1; j = bucket.next[j]) {\n                        if (j == pi.id)\n                            continue;\n                        const double dist = (particles[j].position - pi.position).norm();\n                        if (dist < re)\n                            pi.neighbors.push_back(Neighbor(j, dist));\n                    }"),
  (BK, "#pragma omp parallel for\n    for (int i = 0; i < num; i++) {\n        first[i] = -1;\n        last[i]  = -1;\n    }\n#pragma omp parallel for\n    for (int i = 0; i < particles.size(); i++) {\n        next[i] = -1;\n    }", "    std::fill(first.begin(), first.end(), -1);\n    std::fill(last.begin(), last.end(), -1);\n    std::fill(next.begin(), next.end(), -1);"),
  (BK, "#include \"bucket.hpp\"\n", "#include \"bucket.hpp\"\n\n#include <algorithm>\n"),
  (PPE, "    for (auto& pi : particles) {\n        if (dirichletBoundaryCondition.contains(pi.id)) {\n            // When dirichlet", "    for (int i = 0; i < particles.size(); i++) {\n        const auto& pi = particles[i];\n        if (dirichletBoundaryCondition.contains(pi.id)) {\n            // When dirichlet"),
  (PPE, "            sourceTerm[pi.id] = gamma * (1.0 / (dt * dt)) * ((pi.numberDensity - n0) / n0);", "            sourceTerm[pi.id] = gamma * (pi.numberDensity / n0 - 1.0) / (dt * dt);"),
  )
m("output",
  (EX, "    ofs << time << endl;\n    ofs << particles.size() << endl;\n    for (const auto& p : particles) {\n        ofs << static_cast<int>(p.type) << \" \";\n        ofs << p.position.x() << \" \" << p.position.y() << \" \" << p.position.z() << \" \";\n        ofs << p.velocity.x() << \" \" << p.velocity.y() << \" \" << p.velocity.z();\n        ofs << endl;\n    }\n\n    closeOrExit(ofs, path);\n}\nvoid ParticlesExporter::toVtuAscii", "    std::ostringstream text;\n    text << time << '\\n' << particles.size() << '\\n';\n    for (const auto& p : particles) {\n        text << static_cast<int>(p.type);\n        for (int k = 0; k < 3; k++)\n            text << ' ' << p.position[k];\n        for (int k = 0; k < 3; k++)\n            text << ' ' << p.velocity[k];\n        text << '\\n';\n    }\n    if (text.fail()) {\n        cerr << \"failed to write \" << path << endl;\n        std::exit(-1);\n    }\n    ofs << text.str();\n\n    closeOrExit(ofs, path);\n}\nvoid ParticlesExporter::toVtuAscii"),
  (EX, "        ofs << static_cast<int>(p.type) << \",\";\n        ofs << p.fluidType << \",\";\n        ofs << p.position.x() << \",\" << p.position.y() << \",\" << p.position.z() << \",\";\n        ofs << p.velocity.x() << \",\" << p.velocity.y() << \",\" << p.velocity.z();\n        ofs << endl;", "        ofs << static_cast<int>(p.type) << \",\" << p.fluidType << \",\" << p.position.x() << \",\" << p.position.y() << \",\"\n            << p.position.z() << \",\" << p.velocity.x() << \",\" << p.velocity.y() << \",\" << p.velocity.z() << \"\\n\";"),
  (SV, "    exporter.toProf(dir / \"prof\" / (name + \".prof\"), time);\n    exporter.toVtu(dir / \"vtu\" / (name + \".vtu\"), time, mps.refValuesForNumberDensity.n0, outputVtkInBinary);\n    exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);", "    exporter.toCsv(dir / \"csv\" / (name + \".csv\"), time);\n    exporter.toProf(dir / \"prof\" / (name + \".prof\"), time);\n    exporter.toVtu(dir / \"vtu\" / (name + \".vtu\"), time, mps.refValuesForNumberDensity.n0, outputVtkInBinary);"),
  (SV, "    std::string number = std::to_string(fileNumber);\n    if (number.size() < 4) {\n        number.insert(0, 4 - number.size(), '0');\n    }\n    std::string name = \"output_\" + number;", "    char name_[40];\n    std::snprintf(name_, sizeof name_, \"output_%04d\", fileNumber);\n    std::string name = name_;"),
  (SV, "#include \"saver.hpp\"\n", "#include \"saver.hpp\"\n\n#include <cstdio>\n"),
  (SV, "    fs::create_directories(dir / \"prof\");\n    fs::create_directories(dir / \"vtu\");\n    fs::create_directories(dir / \"csv\");", "    for (const char* sub : {\"csv\", \"prof\", \"vtu\"}) {\n        fs::create_directories(dir / sub);\n    }"),
  )
m("console",
  (SIM, "    // terminal output\n    printf(", "    // error output\n    fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);\n\n    // terminal output\n    printf("),
  (SIM, "    // error output\n    fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);\n}", "}"),
  (SIM, "    cout << endl;\n    cout << \"*** START SIMULATION ***\" << endl;\n    realStartTime = chrono::system_clock::now();", "    realStartTime = chrono::system_clock::now();\n    cout << \"\\n*** START SIMULATION ***\\n\";"),
  (SIM, "    double last = chrono::duration_cast<chrono::nanoseconds>(timeStepEndTime - timeStepStartTime).count() * 1e-9;", "    double last = chrono::duration<double>(timeStepEndTime - timeStepStartTime).count();"),
  (BK, "            cerr << \"WARNING: particle \" << p.id << \" is out of domain.\" << endl;\n            cerr << \"x = \" << p.position.x() << \" \";\n            cerr << \"y = \" << p.position.y() << \" \";\n            cerr << \"z = \" << p.position.z() << endl;\n            p.type = ParticleType::Ghost;\n            continue;", "            p.type = ParticleType::Ghost;\n            cerr << \"WARNING: particle \" << p.id << \" is out of domain.\\nx = \" << p.position.x() << \" y = \" << p.position.y()\n                 << \" z = \" << p.position.z() << \"\\n\";\n            continue;"),
  (SIM, "    while (time < endTime) {\n        auto timeStepStartTime", "    for (; time < endTime;) {\n        auto timeStepStartTime"),
  )
m("loading",
  (LD, "    auto settingCopyPath   = copyInputFileToOutputDirectory(settingPath, outputDirectory);\n    auto particlesCopyPath = copyInputFileToOutputDirectory(particlesPath, outputDirectory);", "    auto particlesCopyPath = copyInputFileToOutputDirectory(particlesPath, outputDirectory);\n    auto settingCopyPath   = copyInputFileToOutputDirectory(settingPath, outputDirectory);"),
  (LD, "    if (fs::exists(outputFilePath)) {\n        cerr << \"file \" << outputFilePath << \" already exists in the output directory\" << endl;\n        std::exit(-1);\n    } else {\n        fs::copy_file(inputFilePath, outputFilePath);\n    }", "    std::error_code error;\n    if (!fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::none, error) || error) {\n        cerr << \"file \" << inputFilePath << \" cannot be copied to \" << outputFilePath << \": \" << error.message() << endl;\n        std::exit(-1);\n    }"),
  (LD, "    YAML::Node yaml = YAML::Load(content);\n\n    Settings s;", "    std::istringstream stream(content);\n    const YAML::Node yaml = YAML::Load(stream);\n\n    Settings s{};"),
  ("src/particles_loader/prof.cpp", "        int type_int = 0;\n        ParticleType type;\n        Eigen::Vector3d pos, vel;\n\n        ifs >> type_int;\n        ifs >> pos.x() >> pos.y() >> pos.z();\n        ifs >> vel.x() >> vel.y() >> vel.z();\n        if (ifs.fail()) {", "        int type_int = 0;\n        ParticleType type;\n        Eigen::Vector3d pos, vel;\n\n        if (!(ifs >> type_int >> pos[0] >> pos[1] >> pos[2] >> vel[0] >> vel[1] >> vel[2])) {"),
  ("src/particles_loader/vtu.cpp", "    // Reset the file stream to the beginning for further processing\n    ifs.clear();\n    ifs.seekg(0, std::ios::beg);\n", "    // Start again from the beginning for further processing\n    ifs.close();\n    ifs.clear();\n    ifs.open(path);\n    if (!ifs) {\n        cerr << \"cannot read vtu file: \" << fs::absolute(path) << endl;\n        std::exit(-1);\n    }\n"),
  ("src/particles_loader/csv.cpp", "    std::stringstream buffer;\n    buffer << ifs.rdbuf();\n    std::string content = buffer.str();", "    std::ostringstream buffer;\n    buffer << ifs.rdbuf();\n    auto content = buffer.str();"),
  ("src/main.cpp", "    Simulation simulation(settingPath, outputDirectory);\n    simulation.run();\n\n    return 0;", "    auto simulation = std::make_unique<Simulation>(settingPath, outputDirectory);\n    simulation->run();\n    return EXIT_SUCCESS;"),
  )
m("memory",
  (EX, "    this->particles = particles;\n", "    Particles copy  = particles;\n    this->particles = copy;\n"),
  (PPE, "    coefficientMatrix.resize(particlesCount, particlesCount);\n    sourceTerm.resize(particlesCount);\n    matrixTriplets.clear();", "    coefficientMatrix.resize(particlesCount, particlesCount);\n    sourceTerm.setZero(particlesCount);\n    matrixTriplets.clear();\n    matrixTriplets.reserve(16 * particlesCount);"),
  ("src/pressure_calculator/explicit.cpp", "    std::vector<double> pressure;\n    pressure.resize(particles.size());", "    std::vector<double> pressure(particles.size(), 0.0);"),
  ("src/pressure_calculator/dirichlet_boundary_condition.cpp", "    return this->values.find(id) != this->values.end();", "    return values.count(id) > 0;"),
  ("src/pressure_calculator/implicit.cpp", "#pragma omp parallel for\n    for (auto& p : pressure) {\n        if (p < 0) {\n            p = 0;\n        }\n    }", "    for (size_t i = 0; i < pressure.size(); i++) {\n        pressure[i] = pressure[i] < 0 ? 0 : pressure[i];\n    }"),
  ("src/surface_detector/distribution.cpp", "    if (abs(rij_sum.x()) > threshold) {\n        return true;\n\n    } else if (abs(rij_sum.y()) > threshold) {\n        return true;\n\n    } else if (abs(rij_sum.z()) > threshold) {\n        return true;\n\n    } else {\n        return false;\n    }", "    return rij_sum.cwiseAbs().maxCoeff() > threshold;"),
  ("src/refvalues.cpp", "                double xj   = particleDistance * (double) (iX);\n                double yj   = particleDistance * (double) (iY);\n                double zj   = particleDistance * (double) (iZ);\n                double dis2 = xj * xj + yj * yj + zj * zj;\n", "                double dis2 = particleDistance * particleDistance * (iX * iX + iY * iY + iZ * iZ);\n"),
  ("src/weight.cpp", "    if (dis >= re) {\n        return 0.0;\n\n    } else {\n        return (re / dis) - 1.0;\n    }", "    return dis < re ? re / dis - 1.0 : 0.0;"),
  ("generator/generator_src/generator_dialogue.cpp", "    for (const auto& ext : extensions) {\n        fs::path filePath = parentPath / (\"input\" + ext);\n        if (ext == \".prof\") {\n            exporter.toProf(filePath, 0.0);\n            std::cout << \"Particles exported to \" << filePath << std::endl;\n        } else if (ext == \".vtu\") {\n            exporter.toVtu(filePath, 0.0);\n            std::cout << \"Particles exported to \" << filePath << std::endl;\n        } else if (ext == \".csv\") {\n            exporter.toCsv(filePath, 0.0);\n            std::cout << \"Particles exported to \" << filePath << std::endl;\n        }\n    }", "    for (const auto& ext : extensions) {\n        fs::path filePath = parentPath / (\"input\" + ext);\n        if (ext == \".prof\") {\n            exporter.toProf(filePath, 0.0);\n        } else if (ext == \".vtu\") {\n            exporter.toVtu(filePath, 0.0);\n        } else {\n            exporter.toCsv(filePath, 0.0);\n        }\n        std::cout << \"Particles exported to \" << filePath << std::endl;\n    }"),
  )
m("scripts",
  ("scripts/runner.sh", "scriptDir=$(dirname -- \"$0\") && CDPATH= cd -- \"${scriptDir}/..\" || exit 1", "scriptDir=$(dirname -- \"$0\") || exit 1\nCDPATH= cd -- \"${scriptDir}/..\" || exit 1"),
  ("scripts/runner.sh", "set -o pipefail\n./build/mps --setting \"${settingFile}\" --output \"${outputDir}\" 2> \"${errorLogFile}\" | tee \"${consoleLogFile}\"", "./build/mps -s \"${settingFile}\" -o \"${outputDir}\" 2> \"${errorLogFile}\" | tee \"${consoleLogFile}\"\nstatus=(\"${PIPESTATUS[@]}\")\n(( status[0] == 0 && status[1] == 0 )) || exit 1"),
  ("scripts/safe_runner.sh", "timestamp=$(date +%Y%m%d%H%M%S) || exit 1", "timestamp=$(date \"+%Y%m%d%H%M%S\")\nif [ $? -ne 0 ]; then\n    exit 1\nfi"),
  ("scripts/safe_runner.sh", "mkdir -p \"$(dirname \"${outputDir}\")\" && mkdir \"${outputDir}\" || exit 1", "mkdir -p \"$(dirname \"${outputDir}\")\" || exit 1\nmkdir \"${outputDir}\" || exit 1"),
  ("scripts/prof_to_csv.sh", "head -n2 \"$input_file\" > \"$output_file\" || exit 1\n\n# Add the csv header\necho \"type,x,y,z,vx,vy,vz\" >> \"$output_file\" || exit 1", "{\n    head -n2 \"$input_file\" && echo \"type,x,y,z,vx,vy,vz\"\n} > \"$output_file\" || exit 1"),
  ("scripts/prof_to_csv.sh", "    if [[ -z \"$type\" || ! \"$type\" =~ ^[0-9]+$ ]]; then\n        continue\n    fi\n\n    echo \"$type,$x,$y,$z,$vx,$vy,$vz\" >> \"$output_file\" || exit 1\ndone", "    [[ \"$type\" =~ ^[0-9]+$ ]] || continue\n    printf '%s,%s,%s,%s,%s,%s,%s\\n' \"$type\" \"$x\" \"$y\" \"$z\" \"$vx\" \"$vy\" \"$vz\" || exit 1\ndone >> \"$output_file\""),
  )
FS = "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"
GD = "generator/generator_src/generator_dialogue.cpp"
m("mps2",
  (MPS, "    auto pressures = pressureCalculator->calc(particles);\n    for (auto& particle : particles) {\n        particle.pressure = pressures[particle.id];\n    }\n\n    setMinimumPressure", "    const auto pressures = pressureCalculator->calc(particles);\n    for (int i = 0; i < particles.size(); ++i)\n        particles[i].pressure = pressures[i];\n\n    setMinimumPressure"),
  (MPS, "            if (neighbor.distance < settings.collisionDistance) {\n\n                double invMi", "            if (neighbor.distance >= settings.collisionDistance)\n                continue;\n            {\n                double invMi"),
  (MPS, "    for (auto& pi : particles) {\n        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {\n            Particle& pj = particles[neighbor.id];\n            if (pj.type == ParticleType::Ghost || pj.type == ParticleType::DummyWall)\n                continue;\n            if (pj.id > pi.id)\n                continue;\n\n            if (neighbor.distance < re) {\n                pi.minimumPressure = std::min(pi.minimumPressure, pj.pressure);\n                pj.minimumPressure = std::min(pj.minimumPressure, pi.pressure);\n            }",
   "#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (const auto& neighbor : pi.neighbors) {\n            const Particle& pj = particles[neighbor.id];\n            const bool counts  = pj.type == ParticleType::Fluid || pj.type == ParticleType::Wall;\n            if (counts && neighbor.distance < re && pj.pressure < pi.minimumPressure) {\n                pi.minimumPressure = pj.pressure;\n            }"),
  (MPS, "            p.velocity += p.acceleration * settings.dt;\n            p.position += p.acceleration * settings.dt * settings.dt;\n", "            const Eigen::Vector3d correction = p.acceleration * settings.dt;\n            p.velocity += correction;\n            p.position += correction * settings.dt;\n"),
  (MPS, "    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        double iCourant = (pi.velocity.norm() * settings.dt) / settings.particleDistance;\n        courant         = std::max(courant, iCourant);\n    }\n", "    double fastest = 0.0;\n#pragma omp parallel for reduction(max : fastest)\n    for (int i = 0; i < particles.size(); i++) {\n        if (particles[i].type == ParticleType::Fluid)\n            fastest = std::max(fastest, (particles[i].velocity.norm() * settings.dt) / settings.particleDistance);\n    }\n    courant = fastest;\n"),
  (MPS, "        viscosityTerm *= a;\n        pi.acceleration += viscosityTerm;", "        pi.acceleration += a * viscosityTerm;"),
  )
m("simulation2",
  (SIM, "    while (time < endTime) {\n        auto timeStepStartTime = chrono::system_clock::now();\n\n        mps.stepForward();\n        timeStep++;\n        time += dt;\n\n        auto timeStepEndTime = chrono::system_clock::now();\n\n        timeStepReport(timeStepStartTime, timeStepEndTime);\n        if (saveCondition()) {\n            saver.save(mps, time);\n        }\n    }",
   "    auto step = [this]() {\n        const auto begin = chrono::system_clock::now();\n        mps.stepForward();\n        time += dt;\n        ++timeStep;\n        timeStepReport(begin, chrono::system_clock::now());\n    };\n    while (!(time >= endTime)) {\n        step();\n        const bool due = saveCondition();\n        if (!due)\n            continue;\n        saver.save(mps, time);\n    }"),
  (SIM, "    // terminal output\n    printf(\n", "    // terminal output\n    char text[600];\n    snprintf(\n        text,\n        sizeof text,\n"),
  (SIM, "        mps.courant\n    );\n", "        mps.courant\n    );\n    std::fputs(text, stdout);\n"),
  (SIM, "    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    const double next = outputPeriod * static_cast<double>(saver.getFileNumber());\n    return !(time - startTime < next);"),
  (SIM, "    if (timeStep != 0) {\n        ave = (double) (chrono::duration_cast<chrono::nanoseconds>(elapsedTime).count()) / (timeStep * 1e9);\n    }", "    if (timeStep != 0) {\n        ave = chrono::duration<double>(elapsedTime).count() / timeStep;\n    }"),
  )
m("exporter2",
  (EX, "    // Particle Type\n    ofs << dataArrayBegin(\"Int32\", \"Particle Type\", 1, \"ascii\") << endl;\n    for (const auto& p : particles) {\n        ofs << static_cast<int32_t>(p.type) << endl;\n    }\n    ofs << dataArrayEnd() << endl;\n    // Velocity\n    ofs << dataArrayBegin(\"Float64\", \"Velocity\", 3, \"ascii\") << endl;\n    for (const auto& p : particles) {\n        ofs << p.velocity.x() << \" \" << p.velocity.y() << \" \" << p.velocity.z() << endl;\n    }\n    ofs << dataArrayEnd() << endl;",
   "    auto values = [&](const char* type, const char* name, int components, auto&& write) {\n        ofs << dataArrayBegin(type, name, components, \"ascii\") << '\\n';\n        for (const auto& p : particles) {\n            write(p);\n            ofs << '\\n';\n        }\n        ofs << dataArrayEnd() << '\\n';\n    };\n    values(\"Int32\", \"Particle Type\", 1, [&](const Particle& p) { ofs << static_cast<int32_t>(p.type); });\n    values(\"Float64\", \"Velocity\", 3, [&](const Particle& p) {\n        ofs << p.velocity[0] << ' ' << p.velocity[1] << ' ' << p.velocity[2];\n    });"),
  (EX, "    for (const auto& p : particles) {\n        double x = p.position.x();\n        double y = p.position.y();\n        double z = p.position.z();\n        binaryData.write(reinterpret_cast<char*>(&x), sizeof(double));\n        binaryData.write(reinterpret_cast<char*>(&y), sizeof(double));\n        binaryData.write(reinterpret_cast<char*>(&z), sizeof(double));\n    }", "    for (const auto& p : particles) {\n        const double xyz[3] = {p.position.x(), p.position.y(), p.position.z()};\n        binaryData.write(reinterpret_cast<const char*>(xyz), sizeof xyz);\n    }"),
  (EX, "    ofs << \"_\" << binaryData.str() << endl;", "    const std::string raw = binaryData.str();\n    ofs << '_';\n    ofs.write(raw.data(), static_cast<std::streamsize>(raw.size()));\n    ofs << std::endl;"),
  (EX, "    ofs << time << endl;\n    ofs << particles.size() << endl;\n    ofs << \"type,fluidType,x,y,z,vx,vy,vz\" << endl;\n", "    ofs << time << '\\n' << particles.size() << '\\n' << \"type,fluidType,x,y,z,vx,vy,vz\\n\" << std::flush;\n"),
  (EX, "    ofs.close();\n    if (ofs.fail()) {\n        cerr << \"failed to write \"", "    ofs.flush();\n    ofs.close();\n    if (!ofs.good()) {\n        cerr << \"could not write \""),
  (EX, "    uint64_t length_types = particles.size() * sizeof(uint8_t);\n    binaryData.write(reinterpret_cast<char*>(&length_types), sizeof(uint64_t));\n    for (const auto& p : particles) {\n        uint8_t type = 1; // 1: particle\n        binaryData.write(reinterpret_cast<char*>(&type), sizeof(uint8_t));\n    }", "    uint64_t length_types = particles.size();\n    binaryData.write(reinterpret_cast<char*>(&length_types), sizeof(uint64_t));\n    binaryData << std::string(particles.size(), '\\1');"),
  )
m("bucket2",
  (BK, "        // NOTE: The conditions are also met by positions that are not a number.\n        bool isInDomain = true;\n        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))\n            isInDomain = false;\n        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))\n            isInDomain = false;\n        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))\n            isInDomain = false;\n        if (!isInDomain) {", "        auto within = [](double lo, double x, double hi) { return lo <= x && x <= hi; };\n        if (!within(domain.xMin, p.position.x(), domain.xMax) || !within(domain.yMin, p.position.y(), domain.yMax) ||\n            !within(domain.zMin, p.position.z(), domain.zMax)) {"),
  (BK, "        if (last[iBucket] == -1)\n            first[iBucket] = p.id;\n        else\n            next[last[iBucket]] = p.id;\n        last[iBucket] = p.id;", "        // the newest particle first\n        next[p.id]     = first[iBucket];\n        first[iBucket] = p.id;"),
  (NS, "        pi.neighbors.clear();\n\n        int ix", "        std::vector<Neighbor> found;\n        found.reserve(pi.neighbors.size());\n\n        int ix"),
  (NS, "                            pi.neighbors.emplace_back(j, dist);", "                            found.emplace_back(j, dist);"),
  (NS, "                        j = bucket.next[j];\n                    }\n                }\n            }\n        }\n", "                        j = bucket.next[j];\n                    }\n                }\n            }\n        }\n        pi.neighbors = std::move(found);\n"),
  )
m("equation2",
  (PPE, "            if (neighbor.distance < re) {\n                double coefficient_ij = a * weight(neighbor.distance, re) / pi.density;\n                matrixTriplets.emplace_back(pi.id, pj.id, -1.0 * coefficient_ij);\n                coefficient_ii += coefficient_ij;\n            }", "            const double w = weight(neighbor.distance, re);\n            if (w > 0.0) {\n                const double coefficient_ij = a * w / pi.density;\n                coefficient_ii += coefficient_ij;\n                matrixTriplets.push_back({pi.id, pj.id, -coefficient_ij});\n            }"),
  (PPE, "        coefficient_ii += (compressibility) / (dt * dt);\n        matrixTriplets.emplace_back(pi.id, pi.id, coefficient_ii);", "        matrixTriplets.emplace_back(pi.id, pi.id, coefficient_ii + compressibility / dt / dt);"),
  (PPE, "    double residual = (coefficientMatrix * pressure - sourceTerm).norm();\n    if (solver.info() != Eigen::Success || !(residual <= 1e-6 * sourceTerm.norm())) {", "    const Eigen::VectorXd rest = sourceTerm - coefficientMatrix * pressure;\n    const bool solved = solver.info() == Eigen::Success && rest.norm() <= 1e-6 * sourceTerm.norm();\n    if (!solved) {"),
  (FS, "    setBoundaryCondition(particles);\n\n    // Boundary condition: Particles other than inner particles set pressure to 0\n    DirichletBoundaryCondition dirichletBoundaryCondition;\n    for (const auto& p : particles) {\n        if (p.boundaryCondition != FluidState::Inner) {\n            dirichletBoundaryCondition.set(p.id, 0.0);\n        }\n    }", "    DirichletBoundaryCondition dirichletBoundaryCondition;\n    setBoundaryCondition(particles);\n    for (const auto& p : particles) {\n        const bool free = p.boundaryCondition == FluidState::FreeSurface || p.boundaryCondition == FluidState::Ignored;\n        if (free)\n            dirichletBoundaryCondition.set(p.id, 0.0);\n    }"),
  ("src/surface_detector/distribution.cpp", "    if (mainDetection(particles, particle)) {\n        return subDetection(particles, particle);\n    } else {\n        return false;\n    }", "    return mainDetection(particles, particle) && subDetection(particles, particle);"),
  ("src/pressure_calculator/explicit.cpp", "            if (ni > n0) {\n                pressure[pi.id] = c * c * rho * (ni - n0) / n0;\n            } else {\n                pressure[pi.id] = 0;\n            }", "            pressure[pi.id] = ni > n0 ? rho * (c * c) * (ni / n0 - 1.0) : 0.0;"),
  )
m("dialogue2",
  (GD, "            std::string response;\n            while (true) {\n                std::cout << \"Are you sure you want to overwrite the input files? (y/n): \";\n                if (!(std::cin >> response)) {\n                    std::cerr << \"No answer was given. The input files are not overwritten.\" << std::endl;\n                    std::exit(-1);\n                }\n                if (response == \"n\" || response == \"N\") {\n                    std::cout << \"The request has been cancelled.\" << std::endl;\n                    std::exit(0);\n                } else if (response == \"y\" || response == \"Y\") {\n                    break;\n                } else {\n                    std::cout << \"Invalid input. Please enter 'y' or 'n'.\" << std::endl;\n                }\n            }",
   "            std::string response;\n            auto ask = [&response]() {\n                std::cout << \"Are you sure you want to overwrite the input files? (y/n): \";\n                return static_cast<bool>(std::cin >> response);\n            };\n            bool given = ask();\n            while (given && response != \"y\" && response != \"Y\" && response != \"n\" && response != \"N\") {\n                std::cout << \"Invalid input. Please enter 'y' or 'n'.\" << std::endl;\n                given = ask();\n            }\n            if (!given) {\n                std::cerr << \"No answer was given. The input files are not overwritten.\" << std::endl;\n                std::exit(EXIT_FAILURE);\n            }\n            if (response == \"n\" || response == \"N\") {\n                std::cout << \"The request has been cancelled.\" << std::endl;\n                std::exit(EXIT_SUCCESS);\n            }"),
  (GD, "    if (!fs::exists(parentPath)) {\n        fs::create_directories(parentPath);\n        std::cout", "    if (fs::create_directories(parentPath)) {\n        std::cout"),
  ("generator/generate_dambreak.cpp", "    if (((x_range.at(0) - eps < pos.x()) && (pos.x() < x_range.at(1) + eps)) &&\n        ((y_range.at(0) - eps < pos.y()) && (pos.y() < y_range.at(1) + eps)) &&\n        ((z_range.at(0) - eps < pos.z()) && (pos.z() < z_range.at(1) + eps)))\n        return true;\n    else\n        return false;", "    const std::vector<double>* ranges[3] = {&x_range, &y_range, &z_range};\n    for (int k = 0; k < 3; k++) {\n        if (!(ranges[k]->front() - eps < pos[k] && pos[k] < ranges[k]->back() + eps))\n            return false;\n    }\n    return true;"),
  )
m("loading2",
  (LD, "    if (readFile(settingCopyPath) != settingContent) {\n        cerr << \"file \" << settingPath << \" was changed while it was being loaded\" << endl;\n        std::exit(-1);\n    }\n", ""),
  (LD, "    auto particlesPath          = input.settings.particlesPath;\n", "    auto particlesPath = input.settings.particlesPath;\n    checkNotInSnapshotDirectory(particlesPath, outputDirectory);\n    for (const auto& path : {settingPath, particlesPath}) {\n        if (fs::exists(outputDirectory / path.filename())) {\n            cerr << \"file \" << outputDirectory / path.filename() << \" already exists in the output directory\" << endl;\n            std::exit(-1);\n        }\n    }\n"),
  (LD, "    checkTimeAdvances(input.startTime, input.settings);\n", "    checkTimeAdvances(input.startTime, input.settings);\n    if (auto copied = readFile(settingCopyPath); copied.size() != settingContent.size() || copied.compare(settingContent) != 0) {\n        cerr << \"file \" << settingPath << \" was changed while it was being loaded\" << endl;\n        std::exit(-1);\n    }\n"),
  (LD, "    if (yaml[\"outputVtkInBinary\"]) {\n        s.outputVtkInBinary = yaml[\"outputVtkInBinary\"].as<bool>();\n    } else {\n        s.outputVtkInBinary = false;\n    }", "    const auto binary   = yaml[\"outputVtkInBinary\"];\n    s.outputVtkInBinary = binary ? binary.as<bool>() : false;"),
  ("src/particles_loader/vtu.cpp", "    // Check if the file contains \"<AppendedData>\" tag\n    std::string line;\n    while (std::getline(ifs, line)) {\n        if (line.find(\"<AppendedData\") != std::string::npos) {\n            cerr << \"Error: Binary VTU files are not supported: \" << fs::absolute(path) << endl;\n            std::exit(-1);\n        }\n    }\n\n    // Reset the file stream to the beginning for further processing\n    ifs.clear();\n    ifs.seekg(0, std::ios::beg);\n", "    std::string line;\n    std::string content;\n    while (std::getline(ifs, line)) {\n        content += line;\n        content += '\\n';\n    }\n    if (content.find(\"<AppendedData\") != std::string::npos) {\n        cerr << \"Error: Binary VTU files are not supported: \" << fs::absolute(path) << endl;\n        std::exit(-1);\n    }\n    std::istringstream text(content);\n"),
  ("src/particles_loader/vtu.cpp", "    // Parse VTU file\n    while (std::getline(ifs, line)) {", "    // Parse VTU file\n    std::istream& in = text;\n    while (std::getline(in, line)) {"),
  ("src/particles_loader/vtu.cpp", "            std::getline(ifs, line);\n            startTime", "            std::getline(in, line);\n            startTime"),
  ("src/particles_loader/vtu.cpp", "            while (std::getline(ifs, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                std::istringstream iss(line);\n                double x,", "            while (std::getline(in, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                std::istringstream iss(line);\n                double x,"),
  ("src/particles_loader/vtu.cpp", "            while (std::getline(ifs, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                std::istringstream iss(line);\n                double vx,", "            while (std::getline(in, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                std::istringstream iss(line);\n                double vx,"),
  ("src/particles_loader/vtu.cpp", "            while (std::getline(ifs, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                int type;", "            while (std::getline(in, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                int type;"),
  ("src/particles_loader/vtu.cpp", "            while (std::getline(ifs, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                int fluidType;", "            while (std::getline(in, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                int fluidType;"),
  ("src/particles_loader/vtu.cpp", "            while (std::getline(ifs, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                double density;", "            while (std::getline(in, line) && line.find(\"</DataArray>\") == std::string::npos) {\n                double density;"),
  ("src/particles_loader/prof.cpp", "        type = static_cast<ParticleType>(type_int);\n        particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));", "        particles.add(Particle(i, static_cast<ParticleType>(type_int), pos, vel, defaultDensity));"),
  ("src/particles_loader/csv.cpp", "    double startTime    = std::stod(in.next_line());\n    double numParticles = std::stod(in.next_line());\n", "    const double startTime    = std::stod(std::string(in.next_line()));\n    const double numParticles = std::stod(std::string(in.next_line()));\n"),
  )
