#pragma once
namespace boost
{
namespace system
{
class error_code
{
public:
    explicit error_code( int v = 0 ) : m_value( v ) {}
    int value( ) const { return m_value; }
    void clear( ) { m_value = 0; }
    bool failed( ) const { return m_value != 0; }
    explicit operator bool( ) const { return m_value != 0; }
    bool operator!( ) const { return m_value == 0; }
private:
    int m_value;
};
}  // namespace system
}  // namespace boost
