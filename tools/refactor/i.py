HEAD='''EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
F='lib/file_reader.cpp'
src=open('/repo/lib/file_reader.cpp').read()
a=src.index('std::optional<std::vector<uint8_t>> FileReader::read_file'); b=src.index('std::optional<size_t> FileReader::get_file_size')
OLD=src[a:b]
e(F,OLD,%r)
e(F,'#include <filesystem>\\n','#include <filesystem>\\n#include <cstdio>\\n#include <fcntl.h>\\n#include <memory>\\n#include <iterator>\\n#include <sstream>\\n#include <cstring>\\n#include <cerrno>\\n#include <sys/mman.h>\\n#include <array>\\n')
'''
V={}
V['fopen']='''std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    std::unique_ptr<FILE, int (*)(FILE*)> f{std::fopen(path.c_str(), "rb"), &std::fclose};
    if (!f) { spdlog::warn("Failed to open file: {}", path); return std::nullopt; }
    if (std::fseek(f.get(), 0, SEEK_END) != 0) { return std::nullopt; }
    const long size = std::ftell(f.get());
    if (size < 0) { return std::nullopt; }
    std::rewind(f.get());
    std::vector<uint8_t> buffer(static_cast<size_t>(size));
    if (std::fread(buffer.data(), 1, buffer.size(), f.get()) != buffer.size()) {
        spdlog::error("Failed to read file: {}", path);
        return std::nullopt;
    }
    return buffer;
}

'''
V['posix']='''std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    const int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) { spdlog::warn("Failed to open file: {}: {}", path, std::strerror(errno)); return std::nullopt; }
    struct Closer { int fd; ~Closer() { ::close(fd); } } closer{fd};
    struct stat st {};
    if (::fstat(fd, &st) != 0 || st.st_size < 0) { return std::nullopt; }
    std::vector<uint8_t> buffer(static_cast<size_t>(st.st_size));
    size_t done = 0;
    while (done < buffer.size()) {
        const ssize_t n = ::read(fd, buffer.data() + done, buffer.size() - done);
        if (n < 0 && errno == EINTR) { continue; }
        if (n <= 0) { return std::nullopt; }
        done += static_cast<size_t>(n);
    }
    return buffer;
}

'''
V['chunks']='''std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    std::ifstream file(path, std::ios::binary | std::ios::ate);
    if (!file) { spdlog::warn("Failed to open file: {}", path); return std::nullopt; }
    const std::streamoff size = file.tellg();
    if (size < 0) { return std::nullopt; }
    file.seekg(0);
    std::vector<uint8_t> buffer;
    buffer.reserve(static_cast<size_t>(size));
    std::array<char, 4096> chunk{};
    std::streamoff left = size;
    while (left > 0) {
        const auto want = std::min<std::streamoff>(left, static_cast<std::streamoff>(chunk.size()));
        if (!file.read(chunk.data(), want)) { spdlog::error("Failed to read file: {}", path); return std::nullopt; }
        buffer.insert(buffer.end(), chunk.begin(), chunk.begin() + file.gcount());
        left -= file.gcount();
    }
    return buffer;
}

'''
V['size']='''std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    std::ifstream file;
    file.open(path, std::ios::in | std::ios::binary);
    if (file.fail()) { spdlog::warn("Failed to open file: {}", path); return std::nullopt; }
    file.seekg(0, std::ios::end);
    const std::ifstream::pos_type end = file.tellg();
    if (end == std::ifstream::pos_type(-1)) { return std::nullopt; }
    file.seekg(0, std::ios::beg);
    std::string text(static_cast<size_t>(static_cast<std::streamoff>(end)), '\\0');
    file.read(text.data(), static_cast<std::streamsize>(text.size()));
    if (file.bad() || file.gcount() != static_cast<std::streamsize>(text.size())) { return std::nullopt; }
    return std::vector<uint8_t>(text.cbegin(), text.cend());
}

'''
V['pread']='''namespace {
class Descriptor {
   public:
    explicit Descriptor(const char* p) : fd_(::open(p, O_RDONLY)) {}
    ~Descriptor() { if (fd_ != -1) ::close(fd_); }
    Descriptor(const Descriptor&) = delete;
    Descriptor& operator=(const Descriptor&) = delete;
    operator int() const { return fd_; }
   private:
    int fd_;
};
}
std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    Descriptor fd(path.c_str());
    if (fd < 0) { spdlog::warn("Failed to open file: {}", path); return std::nullopt; }
    const off_t size = ::lseek(fd, 0, SEEK_END);
    if (size == -1) { return std::nullopt; }
    auto data = std::make_unique<uint8_t[]>(static_cast<size_t>(size));
    for (off_t at = 0; at < size;) {
        const ssize_t got = ::pread(fd, data.get() + at, static_cast<size_t>(size - at), at);
        if (got == -1 && errno == EINTR) continue;
        if (got <= 0) return std::nullopt;
        at += got;
    }
    return std::optional<std::vector<uint8_t>>{std::in_place, data.get(), data.get() + size};
}

'''
V['iter']='''std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    std::ifstream file(path, std::ios::binary | std::ios::ate);
    if (!file.is_open()) { return std::nullopt; }
    const auto size = file.tellg();
    if (size == -1) { return std::nullopt; }
    file.seekg(0, std::ios::beg);
    try {
        std::vector<uint8_t> buffer{std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>()};
        if (buffer.size() < static_cast<size_t>(size)) { return std::nullopt; }
        buffer.resize(static_cast<size_t>(size));
        return buffer;
    } catch (const std::ios_base::failure&) { return std::nullopt; }
}

'''
V['rdbuf']='''std::optional<std::vector<uint8_t>> FileReader::read_file(const std::string& path) {
    std::ifstream file(path, std::ios::binary | std::ios::ate);
    if (!file.is_open()) { return std::nullopt; }
    const auto size = file.tellg();
    if (size == -1) { return std::nullopt; }
    file.seekg(0, std::ios::beg);
    std::vector<uint8_t> buffer(static_cast<size_t>(size));
    try {
        if (file.rdbuf()->sgetn(reinterpret_cast<char*>(buffer.data()), size) != size) { return std::nullopt; }
    } catch (const std::exception&) { return std::nullopt; }
    return buffer;
}

'''
for k,v in V.items(): open(f'/tmp/rf7/{k}.py','w').write(HEAD%v)
