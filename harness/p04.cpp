// Masks of layouts and stages, format classification
#include "tables.hpp"
using namespace h;
CASE( layouts_exhaustive, 1 )
{
	for ( auto l : layouts() )
	{
		auto n = "layout " + std::to_string( int( l ) );
		cx.eq( crg::getAccessMask( l ), accessOf( l ), "access mask of " + n );
		cx.eq( crg::getStageMask( l ), stageOf( l ), "stage mask of " + n );
		auto s = crg::makeLayoutState( l );
		cx.require( same( s, lstate( l ) ), "layout state of " + n + " is " + show( s ) );
	}
	for ( uint32_t f = 0; f < 1000; ++f )
	{
		auto fmt = VkFormat( f ); auto n = "format " + std::to_string( f );
		cx.eq( crg::isDepthFormat( fmt ), depthFmt( fmt ), "has depth: " + n );
		cx.eq( crg::isStencilFormat( fmt ), stencilFmt( fmt ), "has stencil: " + n );
		cx.eq( crg::isDepthStencilFormat( fmt ), depthFmt( fmt ) && stencilFmt( fmt ), "has both: " + n );
		cx.eq( crg::isColourFormat( fmt ), !depthFmt( fmt ) && !stencilFmt( fmt ), "has colour: " + n );
		VkImageAspectFlags a = ( depthFmt( fmt ) ? VK_IMAGE_ASPECT_DEPTH_BIT : 0u ) | ( stencilFmt( fmt ) ? VK_IMAGE_ASPECT_STENCIL_BIT : 0u );
		cx.eq( crg::getAspectMask( fmt ), a ? a : VkImageAspectFlags( VK_IMAGE_ASPECT_COLOR_BIT ), "aspects of " + n );
	}
}
CASE( any_value, 3000 )
{
	auto l = VkImageLayout( rng.any32() );
	cx.note( "layout", uint32_t( l ) );
	cx.eq( crg::getAccessMask( l ), accessOf( l ), "access mask" );
	cx.eq( crg::getStageMask( l ), stageOf( l ), "stage mask" );
	auto fmt = VkFormat( rng.any32() ); cx.note( "format", uint32_t( fmt ) );
	cx.eq( crg::isDepthFormat( fmt ), depthFmt( fmt ), "has depth" );
	cx.eq( crg::isStencilFormat( fmt ), stencilFmt( fmt ), "has stencil" );
	VkPipelineStageFlags f = rng.flip() ? 1u << rng.below( 32 ) : ( rng.any32() & rng.any32() );
	cx.note( "stages", f );
	VkAccessFlags e = 0;
	if ( f & VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) e |= VK_ACCESS_MEMORY_READ_BIT;
	if ( f & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) e |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT;
	if ( f & VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) e |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
	if ( f & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) e |= VK_ACCESS_SHADER_READ_BIT;
	if ( f & VK_PIPELINE_STAGE_TRANSFER_BIT ) e |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
	if ( f & VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV ) e |= VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV;
	if ( f & VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) e |= VK_ACCESS_SHADER_READ_BIT;
	auto s = crg::getPipelineState( f );
	cx.eq( s.access, e, "accesses of the stages" );
	cx.eq( s.pipelineStage, f, "stages" );
}
