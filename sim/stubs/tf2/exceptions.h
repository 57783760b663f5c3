#pragma once
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error
{
public:
  TransformException(const std::string& m) : std::runtime_error(m) {}
};
class LookupException : public TransformException
{
public:
  using TransformException::TransformException;
};
class ConnectivityException : public TransformException
{
public:
  using TransformException::TransformException;
};
class ExtrapolationException : public TransformException
{
public:
  using TransformException::TransformException;
};
class InvalidArgumentException : public TransformException
{
public:
  using TransformException::TransformException;
};
class TimeoutException : public TransformException
{
public:
  using TransformException::TransformException;
};
}  // namespace tf2
