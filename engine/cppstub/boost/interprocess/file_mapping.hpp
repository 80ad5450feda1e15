// Stand-in for boost::interprocess in symbolic runs: mappings are copies of the file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <string>
#include <utility>
extern "C" int64_t flatdata_fs_size( const char* path );
extern "C" unsigned char* flatdata_fs_map( const char* path );
extern "C" void flatdata_fs_unmap( unsigned char* data );
namespace boost
{
namespace interprocess
{
enum mode_t { read_only, read_write, copy_on_write, read_private };
class interprocess_exception : public std::exception
{
public:
    explicit interprocess_exception( const char* what = "interprocess" ) : m_what( what ) {}
    const char* what( ) const noexcept override { return m_what; }
private:
    const char* m_what;
};
class file_mapping
{
public:
    file_mapping( ) {}
    file_mapping( const char* path, mode_t ) : m_path( path )
    {
        if ( flatdata_fs_size( path ) < 0 ) throw interprocess_exception( "open" );
    }
    const char* get_name( ) const { return m_path.c_str( ); }
private:
    std::string m_path;
};
class mapped_region
{
public:
    mapped_region( ) {}
    mapped_region( const file_mapping& f, mode_t, int64_t offset = 0, std::size_t size = 0 )
    {
        int64_t n = flatdata_fs_size( f.get_name( ) );
        if ( n <= 0 || offset != 0 || size > (std::size_t)n ) throw interprocess_exception( "size" );
        m_data = flatdata_fs_map( f.get_name( ) );
        if ( !m_data ) throw interprocess_exception( "map" );
        m_size = size ? size : (std::size_t)n;
    }
    mapped_region( mapped_region&& o ) noexcept { swap( o ); }
    mapped_region& operator=( mapped_region&& o ) noexcept
    {
        mapped_region tmp( std::move( o ) );
        swap( tmp );
        return *this;
    }
    mapped_region( const mapped_region& ) = delete;
    mapped_region& operator=( const mapped_region& ) = delete;
    ~mapped_region( ) { if ( m_data ) flatdata_fs_unmap( m_data ); }
    void swap( mapped_region& o ) noexcept { std::swap( m_data, o.m_data ); std::swap( m_size, o.m_size ); }
    std::size_t get_size( ) const { return m_size; }
    void* get_address( ) const { return m_data; }
private:
    unsigned char* m_data = nullptr;
    std::size_t m_size = 0;
};
}  // namespace interprocess
}  // namespace boost
