// Stand-in for boost::filesystem in symbolic runs: paths are strings, calls go to the operating system.
#pragma once
#include <cerrno>
#include <cstdint>
#include <string>
#include <boost/system/error_code.hpp>
#include <stdexcept>
extern "C" int flatdata_fs_kind( const char* path );      // 0 file, 1 directory, 2 other, < 0: -errno
extern "C" int64_t flatdata_fs_size( const char* path );
extern "C" int flatdata_fs_mkdir( const char* path );
extern "C" int flatdata_fs_remove( const char* path );
namespace boost
{
namespace filesystem
{
enum file_type { status_error, file_not_found, regular_file, directory_file, type_unknown };
class file_status
{
public:
    explicit file_status( file_type t = status_error ) : m_type( t ) {}
    file_type type( ) const { return m_type; }
private:
    file_type m_type;
};
class path
{
public:
    typedef char value_type;
    static const char preferred_separator = '/';
    path( ) {}
    path( const char* s ) : m_s( s ) {}
    path( const std::string& s ) : m_s( s ) {}
    const std::string& native( ) const { return m_s; }
    const std::string& string( ) const { return m_s; }
    std::string generic_string( ) const { return m_s; }
    const char* c_str( ) const { return m_s.c_str( ); }
    operator std::string( ) const { return m_s; }
    bool empty( ) const { return m_s.empty( ); }
    size_t size( ) const { return m_s.size( ); }
    path& operator+=( char c ) { m_s += c; return *this; }
    path& operator+=( const char* s ) { m_s += s; return *this; }
    path& operator+=( const std::string& s ) { m_s += s; return *this; }
    path& operator+=( const path& s ) { m_s += s.m_s; return *this; }
    path& operator/=( const path& p )
    {
        if ( p.empty( ) ) return *this;
        if ( !m_s.empty( ) && m_s.back( ) != '/' && p.m_s.front( ) != '/' ) m_s += '/';
        m_s += p.m_s;
        return *this;
    }
    path& append( const path& p ) { return *this /= p; }
    path& concat( const path& p ) { return *this += p; }
    // as version 3 of the library: "." if the path ends with a separator
    path filename( ) const
    {
        if ( m_s.empty( ) ) return path( );
        size_t p = m_s.rfind( '/' );
        if ( p == std::string::npos ) return *this;
        if ( p + 1 < m_s.size( ) ) return path( m_s.substr( p + 1 ) );
        if ( m_s.find_first_not_of( '/' ) == std::string::npos ) return path( "/" );
        return path( "." );
    }
    path parent_path( ) const
    {
        size_t p = m_s.rfind( '/' );
        return p == std::string::npos ? path( ) : p == 0 ? path( "/" ) : path( m_s.substr( 0, p ) );
    }
    bool has_filename( ) const { return !m_s.empty( ); }
    bool has_parent_path( ) const { return !parent_path( ).empty( ); }
    bool is_absolute( ) const { return !m_s.empty( ) && m_s[ 0 ] == '/'; }
    bool is_relative( ) const { return !is_absolute( ); }
    int compare( const path& o ) const { return m_s.compare( o.m_s ); }
private:
    std::string m_s;
};
inline path operator/( const path& a, const path& b ) { path r( a ); r /= b; return r; }
inline bool operator==( const path& a, const path& b ) { return a.native( ) == b.native( ); }
inline bool operator!=( const path& a, const path& b ) { return a.native( ) != b.native( ); }
inline bool operator<( const path& a, const path& b ) { return a.native( ) < b.native( ); }

class filesystem_error : public std::runtime_error
{
public:
    explicit filesystem_error( const char* s ) : std::runtime_error( s ) {}
};
inline file_status status( const path& p, system::error_code& ec )
{
    int k = flatdata_fs_kind( p.c_str( ) );
    ec = system::error_code( k < 0 ? -k : 0 );
    return file_status( k == 0 ? regular_file : k == 1 ? directory_file : k == 2 ? type_unknown
                        : k == -ENOENT || k == -ENOTDIR ? file_not_found : status_error );
}
inline bool exists( file_status s ) { return s.type( ) != status_error && s.type( ) != file_not_found; }
inline bool is_directory( file_status s ) { return s.type( ) == directory_file; }
inline bool is_regular_file( file_status s ) { return s.type( ) == regular_file; }
inline file_status checked( const path& p )
{
    system::error_code ec;
    file_status s = status( p, ec );
    if ( s.type( ) == status_error ) throw filesystem_error( "status" );
    return s;
}
inline file_status status( const path& p ) { return checked( p ); }
inline bool exists( const path& p, system::error_code& ec ) { return exists( status( p, ec ) ); }
inline bool is_directory( const path& p, system::error_code& ec ) { return is_directory( status( p, ec ) ); }
inline bool is_regular_file( const path& p, system::error_code& ec ) { return is_regular_file( status( p, ec ) ); }
inline bool exists( const path& p ) { return exists( checked( p ) ); }
inline bool is_directory( const path& p ) { return is_directory( checked( p ) ); }
inline bool is_regular_file( const path& p ) { return is_regular_file( checked( p ) ); }
inline uintmax_t file_size( const path& p, system::error_code& ec )
{
    int64_t k = flatdata_fs_size( p.c_str( ) );
    ec = system::error_code( k < 0 ? (int)-k : 0 );
    return (uintmax_t)( k < 0 ? -1 : k );
}
inline uintmax_t file_size( const path& p )
{
    system::error_code ec;
    uintmax_t r = file_size( p, ec );
    if ( ec ) throw filesystem_error( "file_size" );
    return r;
}
inline bool create_directory( const path& p, system::error_code& ec )
{
    int k = flatdata_fs_mkdir( p.c_str( ) );
    ec = system::error_code( );
    if ( k == 0 ) return true;
    if ( flatdata_fs_kind( p.c_str( ) ) != 1 ) ec = system::error_code( -k );
    return false;
}
inline bool create_directory( const path& p )
{
    system::error_code ec;
    bool r = create_directory( p, ec );
    if ( ec ) throw filesystem_error( "create_directory" );
    return r;
}
inline bool create_directories( const path& p, system::error_code& ec )
{
    ec = system::error_code( );
    const std::string s = p.native( );
    bool made = false;
    for ( size_t i = 1; i <= s.size( ); ++i )
        if ( i == s.size( ) || s[ i ] == '/' )
        {
            made = create_directory( path( s.substr( 0, i ) ), ec );
            if ( ec ) return false;
        }
    return made;
}
inline bool create_directories( const path& p )
{
    system::error_code ec;
    bool r = create_directories( p, ec );
    if ( ec ) throw filesystem_error( "create_directories" );
    return r;
}
inline bool remove( const path& p, system::error_code& ec )
{
    int k = flatdata_fs_remove( p.c_str( ) );
    ec = system::error_code( k < 0 && k != -ENOENT ? -k : 0 );
    return k == 0;
}
inline bool remove( const path& p )
{
    system::error_code ec;
    return remove( p, ec );
}
}  // namespace filesystem
}  // namespace boost
