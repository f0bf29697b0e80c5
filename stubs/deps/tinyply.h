// Minimal stand-in for ddiakopoulos/tinyply (not available offline): the part of its interface
// that save_data.cpp uses, writing a binary little-endian PLY through the given stream.
#ifndef TINYPLY_STANDIN_H
#define TINYPLY_STANDIN_H
#include <cstdint>
#include <ostream>
#include <string>
#include <vector>
#include <stdexcept>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
class PlyFile {
    struct Prop { std::vector<std::string> names; size_t width; const uint8_t* data; };
    std::vector<Prop> props; size_t count = 0; bool dbl = true; std::string element;
public:
    void add_properties_to_element(const std::string& elem, const std::vector<std::string>& keys, Type type, size_t n,
                                   const uint8_t* data, Type, size_t){
        element = elem; dbl = type == Type::FLOAT64;
        if (props.empty()) count = n;
        else if (count != n) throw std::runtime_error("tinyply: inconsistent element count");
        props.push_back({keys, keys.size() * (dbl ? 8 : 4), data});
    }
    void write(std::ostream& os, bool){
        os << "ply\nformat binary_little_endian 1.0\nelement " << element << " " << count << "\n";
        for (auto& p : props) for (auto& k : p.names) os << "property " << (dbl ? "double " : "float ") << k << "\n";
        os << "end_header\n";
        for (size_t i = 0; i < count; i++)
            for (auto& p : props) os.write(reinterpret_cast<const char*>(p.data) + i * p.width, p.width);
    }
};
}
#endif
