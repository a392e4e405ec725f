#pragma once
#include "tables.hpp"
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/Attachment.hpp>
namespace h
{
	inline crg::RunnablePassCreator noRun()
	{
		return []( crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ) -> crg::RunnablePassPtr { return nullptr; };
	}
	inline crg::ImageId img2D( crg::FrameGraph & g, std::string const & n, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM, uint32_t levels = 1, uint32_t layers = 1, VkExtent3D e = { 64, 64, 1 }, VkImageCreateFlags fl = 0 )
	{
		return g.createImage( crg::ImageData{ n, fl, VK_IMAGE_TYPE_2D, f, e, VK_IMAGE_USAGE_SAMPLED_BIT, levels, layers } );
	}
	inline crg::ImageViewId view2D( crg::FrameGraph & g, std::string const & n, crg::ImageId i, uint32_t level = 0, uint32_t levels = 1, uint32_t layer = 0, uint32_t layers = 1, VkImageAspectFlags aspect = 0 )
	{
		auto f = i.data->info.format;
		return g.createView( crg::ImageViewData{ n, i, 0, layers > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, f, { aspect ? aspect : crg::getAspectMask( f ), level, levels, layer, layers } } );
	}
}
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <memory>
namespace h
{
	// what the callbacks of a pass return and record; the pass keeps a reference on it
	struct PassCfg
	{
		bool enabled{ true };
		uint32_t index{ 0 };
		crg::PipelineState state{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT };
		bool compute{ false };
		crg::ru::Config ru{};
		std::function< void( crg::RecordContext &, VkCommandBuffer, uint32_t ) > record;
		crg::RunnablePass * pass{};
		uint32_t initialised{};
	};
	// a pass whose recording leaves a mark in the trace
	inline crg::RunnablePassCreator runWith( PassCfg & cfg, uint64_t mark )
	{
		return [&cfg, mark]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
		{
			auto p = std::make_unique< crg::RunnablePass >( fp, ctx, rg
				, crg::RunnablePass::Callbacks{ [&cfg, mark]( uint32_t i ){ ++cfg.initialised; rec( "init" )( "pass", mark )( "index", i ); }
					, crg::RunnablePass::GetPipelineStateCallback( [&cfg](){ return cfg.state; } )
					, [&cfg, mark]( crg::RecordContext & c, VkCommandBuffer cb, uint32_t i ){ rec( "record" )( "pass", mark )( "cb", H( cb ) )( "index", i ); if ( cfg.record ) cfg.record( c, cb, i ); }
					, crg::RunnablePass::GetPassIndexCallback( [&cfg](){ return cfg.index; } )
					, crg::RunnablePass::IsEnabledCallback( [&cfg](){ return cfg.enabled; } )
					, crg::RunnablePass::IsComputePassCallback( [&cfg](){ return cfg.compute; } ) }
				, cfg.ru );
			cfg.pass = p.get();
			return p;
		};
	}
	inline std::vector< std::string > fns()
	{
		std::vector< std::string > r;
		for ( auto & c : world().trace ) r.push_back( c.fn );
		return r;
	}
	inline size_t firstOf( std::string const & fn, size_t from = 0 )
	{
		for ( size_t k = from; k < world().trace.size(); ++k ) if ( world().trace[k].fn == fn ) return k;
		return ~size_t( 0 );
	}
}
