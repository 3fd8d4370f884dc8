// Instantiates the header-only templates so that their members appear as
// concrete functions in the extracted facts.
#include <usml/types/types.h>
#include <usml/ocean/ocean.h>
#include <usml/managed/managed.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/netcdf/netcdf_files.h>
template class usml::types::gen_grid<1>;
template class usml::types::gen_grid<2>;
template class usml::types::gen_grid<3>;
template class usml::types::data_grid<1>;
template class usml::types::data_grid<2>;
template class usml::types::data_grid<3>;
template class usml::ocean::boundary_grid<1>;
template class usml::ocean::boundary_grid<2>;
template class usml::ocean::profile_grid<1>;
template class usml::ocean::profile_grid<2>;
template class usml::ocean::profile_grid<3>;
template class usml::managed::manager_template<usml::platforms::platform_model>;
template class usml::managed::manager_template<usml::sensors::sensor_pair>;
template class usml::managed::update_notifier<usml::sensors::sensor_pair>;
template class usml::managed::update_notifier<usml::biverbs::biverb_collection::csptr>;
template class usml::managed::update_notifier<usml::rvbts::rvbts_collection::csptr>;
template class usml::netcdf::netcdf_coards<1>;
template class usml::netcdf::netcdf_coards<2>;
template class usml::netcdf::netcdf_coards<3>;
template double usml::ocean::wave_height_pierson<double>(double);
namespace usml::types {
template struct derivative<double>;
template struct derivative<std::complex<double> >;
template struct derivative<boost::numeric::ublas::vector<double> >;
template struct derivative<boost::numeric::ublas::matrix<double> >;
template struct end_point_derivative<double>;
template struct end_point_derivative<std::complex<double> >;
template struct end_point_derivative<boost::numeric::ublas::vector<double> >;
template struct end_point_derivative<boost::numeric::ublas::matrix<double> >;
}  // namespace usml::types
