# logging and tracing have no functional effect
skip casual::common::log::line<
skip casual::common::log::code<
skip casual::common::log::error<
skip casual::common::log::information<
skip casual::common::log::warning<
skip casual::common::log::verbose::
skip casual::common::log::write<
skip casual::common::log::trace::
skip casual::common::log::stream::
skip ^std::ostream::flush
# text of error messages
emptystr casual::common::string::compose<

# std::find over contiguous bytes: first equal byte (assumed contract, the native conformance runs use the real function)
findbyte ^__gnu_cxx::__normal_iterator<(std::byte|char|unsigned~char)(~const)?\*,~.*~std::find<__gnu_cxx::__normal_iterator<.*>,~(std::byte|char|unsigned~char)>\(
findbyte ^(std::byte|char|unsigned~char)(~const)?\*~std::find<(std::byte|char|unsigned~char)(~const)?\*,~(std::byte|char|unsigned~char)>\(
