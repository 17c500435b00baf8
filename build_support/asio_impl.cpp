// Out-of-line parts of asio/beast, compiled once (the code under test is built
// with BOOST_ASIO_SEPARATE_COMPILATION / BOOST_BEAST_SEPARATE_COMPILATION).
#include <boost/asio/impl/src.hpp>
#include <boost/asio/ssl/impl/src.hpp>
#include <boost/beast/src.hpp>
