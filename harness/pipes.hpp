// a graph of one pass that draws or dispatches, recorded for each of its instances
#pragma once
#include "graphs.hpp"
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <algorithm>
namespace h
{
	struct Use { uint32_t binding; VkDescriptorType type; crg::ImageViewIdArray views; crg::VkBufferArray bufs; VkBufferView view{}; VkDeviceSize offset{}, size{}; crg::SamplerDesc smp; bool image{}; };
	struct Pipes
	{
		Rng & rng;
		Dev dev;
		crg::ResourceHandler handler;
		crg::FrameGraph g{ handler, "g" };
		crg::ContextResourcesCache cache{ handler, dev.ctx };
		uint32_t inst, index{ 0 }, kind, progs, counter{ 0 };
		std::vector< Use > uses;
		crg::RunnablePass * pass{};
		crg::FramePass * fp{};
		crg::RunnableGraphPtr rg;
		// kind 0: dispatch, 1: mesh, 2: quad
		uint32_t gx{ 1 }, gy{ 1 }, gz{ 1 }, cx_{}, cy{}, cz{}, prim, vert, instances{ 1 };
		bool resettable{}, hasX{}, hasY{}, hasZ{}, hasVertex{}, hasIndex{}, hasIndirect{};
		crg::VkBufferArray vb{ VkBuffer{} }, ib{ VkBuffer{} }, nb{ VkBuffer{} };
		VkDeviceSize noff{}; uint32_t nstride{};
		VkIndexType itype{ VK_INDEX_TYPE_UINT32 };
		std::vector< VkDescriptorSetLayout > layouts;
		std::vector< VkPushConstantRange > pcs;
		std::vector< uint32_t > stagesOf;          // stages of the program of each instance

		crg::VkBufferArray buffers( uint32_t base )
		{
			crg::VkBufferArray a;
			uint32_t many = rng.flip() ? 1u : inst;
			for ( uint32_t j = 0; j < many; ++j ) a.push_back( VkBuffer( uint64_t( base + j ) ) );
			return a;
		}
		static VkBuffer at( crg::VkBufferArray const & a, uint32_t i ){ return a[a.size() == 1 ? 0 : i]; }
		crg::VkPipelineShaderStageCreateInfoArray program( uint32_t i )
		{
			crg::VkPipelineShaderStageCreateInfoArray r;
			for ( uint32_t k = 0; k < stagesOf[i]; ++k ) r.push_back( { VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0, kind ? VK_SHADER_STAGE_VERTEX_BIT : VK_SHADER_STAGE_COMPUTE_BIT, VkShaderModule( uint64_t( 0x5000 + 16 * i + k ) ), "main", nullptr } );
			return r;
		}
		template< typename C > void programs( C & c )
		{
			if ( progs == 0 ) c.program( program( 0 ) );
			else if ( progs == 1 ) { std::vector< crg::VkPipelineShaderStageCreateInfoArray > v; for ( uint32_t i = 0; i < inst; ++i ) v.push_back( program( i ) ); c.programs( v ); }
			else c.programCreator( { inst, [this]( uint32_t i ){ return program( i ); } } );
			if ( !layouts.empty() ) c.layouts( layouts );
		}
		Pipes( Rng & r, uint32_t k ): rng{ r }, kind{ k }
		{
			inst = rng.range( 1, 3 );
			progs = rng.below( 3 ); resettable = rng.flip();
			for ( uint32_t i = 0; i < inst; ++i ) stagesOf.push_back( rng.range( 1, 2 ) );
			for ( uint32_t i = rng.below( 3 ); i > 0; --i ) layouts.push_back( VkDescriptorSetLayout( uint64_t( 0x6000 + i ) ) );
			gx = rng.range( 1, 9 ); gy = rng.range( 10, 19 ); gz = rng.range( 20, 29 );
			hasX = rng.flip(); hasY = rng.flip(); hasZ = rng.flip();
			cx_ = rng.range( 30, 39 ); cy = rng.range( 40, 49 ); cz = rng.range( 50, 59 );
			prim = rng.range( 60, 69 ); vert = rng.range( 70, 79 ); instances = rng.range( 2, 9 );
			itype = rng.flip() ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32;
			hasVertex = rng.flip(); hasIndex = rng.flip(); hasIndirect = rng.flip();
			if ( hasVertex ) vb = buffers( 0xB000 );
			if ( hasIndex ) ib = buffers( 0xC000 );
			if ( hasIndirect ) { nb = buffers( 0xD000 ); noff = rng.below( 64 ); nstride = rng.range( 1, 32 ); }
			auto pre = crg::RunnablePass::RecordCallback( []( crg::RecordContext &, VkCommandBuffer cb, uint32_t i ){ rec( "user:record" )( "cb", H( cb ) )( "index", i ); } );
			auto end = crg::RunnablePass::RecordCallback( []( crg::RecordContext &, VkCommandBuffer cb, uint32_t i ){ rec( "user:end" )( "cb", H( cb ) )( "index", i ); } );
			auto & p = g.createPass( "p", [this, pre, end]( crg::FramePass const & f, crg::GraphContext & c, crg::RunnableGraph & gr ) -> crg::RunnablePassPtr
			{
				crg::ru::Config ru{ inst, resettable };
				if ( kind == 0 )
				{
					crg::cp::Config cfg;
					programs( cfg );
					cfg.getPassIndex( crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ) ).recordInto( pre ).end( end ).groupCountX( gx ).groupCountY( gy ).groupCountZ( gz );
					if ( hasX ) cfg.getGroupCountX( crg::cp::GetGroupCountCallback( [this](){ return cx_; } ) );
					if ( hasY ) cfg.getGroupCountY( crg::cp::GetGroupCountCallback( [this](){ return cy; } ) );
					if ( hasZ ) cfg.getGroupCountZ( crg::cp::GetGroupCountCallback( [this](){ return cz; } ) );
					if ( hasIndirect ) cfg.indirectBuffer( crg::IndirectBuffer{ { nb, "n" }, nstride, noff } );
					auto res = std::make_unique< crg::ComputePass >( f, c, gr, ru, cfg );
					pass = res.get();
					return res;
				}
				if ( kind == 1 )
				{
					crg::rm::Config cfg;
					programs( cfg );
					cfg.getPassIndex( crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ) ).recordInto( pre ).end( end );
					cfg.getPrimitiveCount( crg::GetPrimitiveCountCallback( [this](){ return prim; } ) ).getVertexCount( crg::GetVertexCountCallback( [this](){ return vert; } ) ).getIndexType( crg::GetIndexTypeCallback( [this](){ return itype; } ) );
					if ( hasVertex ) cfg.vertexBuffer( crg::VertexBuffer{ { vb, "v" } } );
					if ( hasIndex ) cfg.indexBuffer( crg::IndexBuffer{ { ib, "x" } } );
					if ( hasIndirect ) cfg.indirectBuffer( crg::IndirectBuffer{ { nb, "n" }, nstride, noff } );
					auto res = std::make_unique< crg::RenderMesh >( f, c, gr, ru, std::move( cfg ) );
					pass = res.get();
					return res;
				}
				crg::rq::Config cfg;
				programs( cfg );
				cfg.passIndex( &index ).recordInto( pre ).end( end ).instances( instances );
				if ( hasIndirect ) cfg.indirectBuffer( crg::IndirectBuffer{ { nb, "n" }, nstride, noff } );
				auto res = std::make_unique< crg::RenderQuad >( f, c, gr, ru, cfg );
				pass = res.get();
				return res;
			} );
			fp = &p;
			uint32_t binding = rng.below( 3 );
			uint32_t n = rng.below( 5 );
			for ( uint32_t i = 0; i < n; ++i )
			{
				Use u{};
				u.binding = binding; binding += rng.range( 1, 2 );
				switch ( rng.below( 9 ) )
				{
				case 0: case 1: u.type = VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER; u.image = true; break;
				case 2: case 3: u.type = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; u.image = true; break;
				case 4: u.type = VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER; break;
				case 5: u.type = VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; break;
				case 6: u.type = VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER; u.view = VkBufferView( uint64_t( 0xE000 + i ) ); break;
				case 7: u.type = VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; u.view = VkBufferView( uint64_t( 0xE000 + i ) ); break;
				default: continue;
				}
				auto name = std::to_string( i );
				if ( u.image )
				{
					uint32_t many = rng.flip() ? 1u : inst;
					for ( uint32_t j = 0; j < many; ++j )
					{
						auto im = img2D( g, "i" + name + "_" + std::to_string( j ), VK_FORMAT_R8G8B8A8_UNORM, 2, 2 );
						u.views.push_back( view2D( g, "v" + name + "_" + std::to_string( j ), im, rng.below( 2 ), 1, rng.below( 2 ), 1 ) );
					}
					u.smp = crg::SamplerDesc{ rng.flip() ? VK_FILTER_LINEAR : VK_FILTER_NEAREST, rng.flip() ? VK_FILTER_LINEAR : VK_FILTER_NEAREST };
					if ( u.type == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER ) p.addSampledView( u.views, u.binding, u.smp );
					else if ( rng.flip() ) p.addOutputStorageView( u.views, u.binding );
					else p.addInOutStorageView( u.views, u.binding );
				}
				else
				{
					u.bufs = buffers( 0x8000 + 16 * i );
					u.offset = rng.below( 32 ); u.size = rng.range( 1, 64 );
					crg::Buffer b{ u.bufs, "b" + name };
					if ( u.type == VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER ) p.addUniformBuffer( b, u.binding, u.offset, u.size );
					else if ( u.type == VK_DESCRIPTOR_TYPE_STORAGE_BUFFER ) p.addInOutStorageBuffer( b, u.binding, u.offset, u.size );
					else if ( u.type == VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER ) p.addUniformBufferView( b, u.view, u.binding, u.offset, u.size );
					else p.addOutputStorageBufferView( b, u.view, u.binding, u.offset, u.size );
				}
				uses.push_back( u );
			}
			// uses that are not bound to shaders
			if ( rng.flip() ) p.addTransferOutputBuffer( { VkBuffer( 0x7001 ), "tb" }, 0, 16 );
			if ( kind ) p.addOutputColourView( view2D( g, "tv", img2D( g, "ti" ) ) );
			std::stable_sort( uses.begin(), uses.end(), []( Use const & a, Use const & b ){ return a.image && !b.image; } );
			rg = g.compile( dev.ctx );
		}
		std::vector< Rec > record( crg::RecordContext & rc, uint32_t i, VkCommandBuffer cb )
		{
			index = i;
			auto from = world().trace.size();
			pass->recordCurrentInto( rc, cb );
			return { world().trace.begin() + ptrdiff_t( from ), world().trace.end() };
		}
		uint32_t programOf( uint32_t i )const{ return progs == 0 ? 0 : i; }
	};
	inline std::vector< Rec > only( std::vector< Rec > const & v, std::vector< std::string > const & names )
	{
		std::vector< Rec > r;
		for ( auto & c : v ) if ( std::find( names.begin(), names.end(), c.fn ) != names.end() ) r.push_back( c );
		return r;
	}
	inline uint64_t val( Rec const & r, std::string const & f )
	{
		for ( auto & p : r.f ) if ( p.first == f ) return p.second;
		return ~uint64_t( 0 );
	}
}
